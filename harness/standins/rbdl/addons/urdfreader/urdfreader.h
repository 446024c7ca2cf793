// Stand-in for the URDF reader of RBDL. Floating joints get six coordinates (position and angles X, Y, Z of an Euler XYZ sequence), planar ones
// three (x, y, angle about z); how these joints are represented (single joints, triples, custom joints) is chosen by standin::urdfOptions().
#pragma once
#include <fstream>
#include <functional>
#include <sstream>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include "rbdl/rbdl.h"
namespace standin { struct UrdfOptions { int multi_dof; }; inline UrdfOptions &urdfOptions() { static UrdfOptions o = {0}; return o; } }
namespace RigidBodyDynamics { namespace Addons {
inline bool URDFReadFromFile(const char *filename, Model *model, bool floating_base, bool)
{
    using namespace Math; namespace pt = boost::property_tree;
    try
    {
        pt::ptree doc; { std::ifstream f(filename); if (!f) return false; pt::read_xml(f, doc, pt::xml_parser::no_comments); }
        const pt::ptree &robot = doc.get_child("robot");
        auto vec = [](const std::string &s) { std::istringstream i(s); Vector3d v; if (!(i >> v[0] >> v[1] >> v[2])) throw std::runtime_error("three numbers expected"); return v; };
        auto origin = [&](const pt::ptree &p) { Vector3d a = vec(p.get("origin.<xmlattr>.rpy", "0 0 0")); return SpatialTransform((rotation(a[2], Vector3d::UnitZ()) * rotation(a[1], Vector3d::UnitY()) * rotation(a[0], Vector3d::UnitX())).transpose(), vec(p.get("origin.<xmlattr>.xyz", "0 0 0"))); };
        struct J { std::string name, type, parent, child; SpatialTransform frame; Vector3d axis; };
        std::vector<J> joints; std::map<std::string, Body> links; std::map<std::string, int> parent_of; std::vector<std::string> order;
        for (auto &e : robot)
        {
            if (e.first == "link")
            {
                Body b; if (auto in = e.second.get_child_optional("inertial")) { b.mMass = in->get<double>("mass.<xmlattr>.value"); b.mCenterOfMass = vec(in->get("origin.<xmlattr>.xyz", "0 0 0")); }
                std::string n = e.second.get<std::string>("<xmlattr>.name"); if (links.count(n)) return false; links[n] = b; order.push_back(n);
            }
            else if (e.first == "joint")
            {
                J j; j.name = e.second.get<std::string>("<xmlattr>.name"); j.type = e.second.get<std::string>("<xmlattr>.type"); j.parent = e.second.get<std::string>("parent.<xmlattr>.link"); j.child = e.second.get<std::string>("child.<xmlattr>.link");
                j.frame = origin(e.second); j.axis = vec(e.second.get("axis.<xmlattr>.xyz", "1 0 0")); parent_of[j.child] = joints.size(); joints.push_back(j);
            }
        }
        std::string root; for (auto &n : order) if (!parent_of.count(n)) { if (!root.empty()) return false; root = n; }
        if (root.empty()) return false;
        const int mode = standin::urdfOptions().multi_dof;
        auto single = [](JointType t, const Vector3d &axis) { Joint j; j.mJointType = t; j.mDoFCount = 1; j.axis = axis; return j; };
        auto triple = [](JointType t) { Joint j; j.mJointType = t; j.mDoFCount = 3; return j; };
        auto custom = [&](unsigned int dof) { Joint j; j.mJointType = JointTypeCustom; j.mDoFCount = dof; j.custom_joint_index = model->mCustomJoints.size(); CustomJoint *c = new CustomJoint; c->mDoFCount = dof; c->S.setZero(6, dof); model->mCustomJoints.push_back(c); return j; };
        auto multi = [&](unsigned int parent, const SpatialTransform &frame, bool planar, const Body &b, const std::string &name) {
            if (mode == 2) return model->AddBody(parent, frame, custom(planar ? 3 : 6), b, name);
            if (mode == 1 && !planar) return model->AddBody(model->AddBody(parent, frame, triple(JointTypeTranslationXYZ), Body(), ""), SpatialTransform(), triple(JointTypeEulerXYZ), b, name);
            std::vector<Joint> chain; chain.push_back(single(JointTypePrismatic, Vector3d::UnitX())); chain.push_back(single(JointTypePrismatic, Vector3d::UnitY()));
            if (!planar) { chain.push_back(single(JointTypePrismatic, Vector3d::UnitZ())); chain.push_back(single(JointTypeRevolute, Vector3d::UnitX())); chain.push_back(single(JointTypeRevolute, Vector3d::UnitY())); }
            chain.push_back(single(JointTypeRevolute, Vector3d::UnitZ()));
            unsigned int id = parent; SpatialTransform f = frame;
            for (std::size_t i = 0; i < chain.size(); ++i) { bool last = i + 1 == chain.size(); id = model->AddBody(id, f, chain[i], last ? b : Body(), last ? name : ""); f = SpatialTransform(); }
            return id;
        };
        bool has_floating = false; for (auto &j : joints) has_floating = has_floating || (j.parent == root && j.type == "floating");
        unsigned int root_id = floating_base && !has_floating ? multi(0, SpatialTransform(), false, links[root], root) : model->AddFixed(0, SpatialTransform(), links[root], root);
        std::function<bool(const std::string &, unsigned int)> visit = [&](const std::string &link, unsigned int id) -> bool {
            for (auto &j : joints) if (j.parent == link)
            {
                unsigned int c; if (!links.count(j.child)) return false; const Body &b = links[j.child];
                if (j.type == "fixed") c = model->AddFixed(id, j.frame, b, j.child);
                else if (j.type == "revolute" || j.type == "continuous") c = model->AddBody(id, j.frame, single(JointTypeRevolute, j.axis.normalized()), b, j.child);
                else if (j.type == "prismatic") c = model->AddBody(id, j.frame, single(JointTypePrismatic, j.axis.normalized()), b, j.child);
                else if (j.type == "floating") c = multi(id, j.frame, false, b, j.child);
                else if (j.type == "planar") c = multi(id, j.frame, true, b, j.child);
                else return false;
                if (!visit(j.child, c)) return false;
            }
            return true;
        };
        return visit(root, root_id);
    }
    catch (const pt::ptree_error &) { return false; }
}
} }

// Kinematic trees of the harness: random robots and robots read from URDF files, with forward kinematics, masses and numerical Jacobians
// computed here, independently of the bridge to RBDL.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <fstream>
#include <functional>
#include <iomanip>
#include <sstream>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
namespace robot
{
    using Eigen::Vector3d; using Eigen::Matrix3d; using Eigen::VectorXd; using Eigen::MatrixXd; typedef Eigen::Isometry3d T;
    enum Kind { FIXED, REVOLUTE, CONTINUOUS, PRISMATIC, FLOATING, PLANAR };
    inline const char *kindName(Kind k) { static const char *n[] = {"fixed", "revolute", "continuous", "prismatic", "floating", "planar"}; return n[k]; }
    struct Link { std::string name, joint; double lower, upper, velocity; int parent; Kind kind; T origin; Vector3d rpy, xyz, axis; bool inertial; double mass; Vector3d com; int q; std::vector<int> children; Link() : lower(0), upper(0), velocity(0), parent(-1), kind(FIXED), origin(T::Identity()), rpy(0, 0, 0), xyz(0, 0, 0), axis(1, 0, 0), inertial(false), mass(0), com(0, 0, 0), q(-1) {} };
    inline T frame(const Vector3d &rpy, const Vector3d &xyz) { T t = T::Identity(); t.translate(xyz); t.rotate(Eigen::AngleAxisd(rpy[2], Vector3d::UnitZ())); t.rotate(Eigen::AngleAxisd(rpy[1], Vector3d::UnitY())); t.rotate(Eigen::AngleAxisd(rpy[0], Vector3d::UnitX())); return t; }
    inline int dofs(Kind k) { return k == FIXED ? 0 : k == FLOATING ? 6 : k == PLANAR ? 3 : 1; }
    struct Robot
    {
        std::vector<Link> links; bool floating_root; int dof; std::vector<T> pose;   // links[0] is the root
        Robot() : floating_root(false), dof(0) {}
        int joint(const std::string &n) const { for (unsigned i = 0; i < links.size(); ++i) if (links[i].joint == n) return i; return -1; }
        int find(const std::string &n) const { for (unsigned i = 0; i < links.size(); ++i) if (links[i].name == n) return i; return -1; }
        void number()
        {
            for (auto &l : links) l.children.clear();
            for (unsigned i = 1; i < links.size(); ++i) links[links[i].parent].children.push_back(i);
            dof = 0; links[0].kind = floating_root ? FLOATING : FIXED;
            std::function<void(int)> visit = [&](int i) { links[i].q = dof; dof += dofs(links[i].kind); for (int c : links[i].children) visit(c); };
            visit(0);
        }
        T joint(const Link &l, const VectorXd &q) const
        {
            T t = T::Identity();
            switch (l.kind)
            {
                case REVOLUTE: case CONTINUOUS: t.rotate(Eigen::AngleAxisd(q[l.q], l.axis.normalized())); break;
                case PRISMATIC: t.translate(Vector3d(q[l.q] * l.axis.normalized())); break;
                case PLANAR: t.translate(Vector3d(q[l.q], q[l.q + 1], 0)); t.rotate(Eigen::AngleAxisd(q[l.q + 2], Vector3d::UnitZ())); break;
                case FLOATING: t.translate(Vector3d(q[l.q], q[l.q + 1], q[l.q + 2])); t.rotate(Eigen::AngleAxisd(q[l.q + 3], Vector3d::UnitX())); t.rotate(Eigen::AngleAxisd(q[l.q + 4], Vector3d::UnitY())); t.rotate(Eigen::AngleAxisd(q[l.q + 5], Vector3d::UnitZ())); break;
                default: break;
            }
            return t;
        }
        std::vector<T> fk(const VectorXd &q) const
        {
            std::vector<T> p(links.size());
            std::function<void(int)> visit = [&](int i) { const Link &l = links[i]; p[i] = (i == 0 ? T::Identity() : p[l.parent]) * l.origin * joint(l, q); for (int c : l.children) visit(c); };
            visit(0); return p;
        }
        bool movable(int i) const { return links[i].kind != FIXED; }
        // everything which is rigidly attached to a movable link is a part of it
        void rigid(int i, std::vector<int> &out) const { out.push_back(i); for (int c : links[i].children) if (!movable(c)) rigid(c, out); }
        std::vector<int> parts(int i) const { std::vector<int> o; if (movable(i)) rigid(i, o); else o.push_back(i); return o; }
        double mass(int i) const { double m = 0; for (int k : parts(i)) m += links[k].mass; return m; }
        std::vector<int> movables() const { std::vector<int> o; for (unsigned i = 0; i < links.size(); ++i) if (movable(i)) o.push_back(i); return o; }
        Vector3d com(const std::vector<int> &ids, const VectorXd &q) const { std::vector<T> p = fk(q); Vector3d c(0, 0, 0); double m = 0; for (int i : ids) for (int k : parts(i)) { c += links[k].mass * (p[k] * links[k].com); m += links[k].mass; } return c / m; }
        double mass(const std::vector<int> &ids) const { double m = 0; for (int i : ids) m += mass(i); return m; }
        MatrixXd pointJ(const std::function<Vector3d(const VectorXd &)> &f, const VectorXd &q) const
        {
            MatrixXd J(3, dof); const double h = 1e-3;
            for (int i = 0; i < dof; ++i) { VectorXd d = VectorXd::Zero(dof); d[i] = h; J.col(i) = (8 * (f(q + d) - f(q - d)) - (f(q + 2 * d) - f(q - 2 * d))) / (12 * h); }
            return J;
        }
        static Vector3d rotlog(const Matrix3d &R) { Eigen::AngleAxisd a(R); return a.angle() * a.axis(); }
        MatrixXd rotationJ(int link, const VectorXd &q) const
        {
            MatrixXd J(3, dof); const double h = 1e-3; auto R = [&](const VectorXd &x) { return Matrix3d(fk(x)[link].linear()); }; Matrix3d R0 = R(q).transpose();
            for (int i = 0; i < dof; ++i)
            {
                VectorXd d = VectorXd::Zero(dof); d[i] = h; J.col(i) = (8 * (rotlog(R(q + d) * R0) - rotlog(R(q - d) * R0)) - (rotlog(R(q + 2 * d) * R0) - rotlog(R(q - 2 * d) * R0))) / (12 * h);
            }
            return J;
        }
        std::string urdf(const std::function<int(int)> &shuffle = nullptr) const
        {
            std::ostringstream o; o << std::setprecision(17) << "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n"; auto v = [](const Vector3d &x) { std::ostringstream s; s << std::setprecision(17) << x[0] << " " << x[1] << " " << x[2]; return s.str(); };
            for (unsigned i = 0; i < links.size(); ++i)
            {
                const Link &l = links[i];
                o << "<link name=\"" << l.name << "\">"; if (l.inertial) o << "<inertial><mass value=\"" << l.mass << "\"/><origin rpy=\"0 0 0\" xyz=\"" << v(l.com) << "\"/><inertia ixx=\"1\" ixy=\"0\" ixz=\"0\" iyy=\"1\" iyz=\"0\" izz=\"1\"/></inertial>"; o << "</link>\n";
                if (i > 0) o << "<joint name=\"j" << i << "\" type=\"" << kindName(l.kind) << "\"><parent link=\"" << links[l.parent].name << "\"/><child link=\"" << l.name << "\"/><origin rpy=\"" << v(l.rpy) << "\" xyz=\"" << v(l.xyz) << "\"/><axis xyz=\"" << v(l.axis) << "\"/></joint>\n";
            }
            o << "</robot>\n"; return o.str();
        }
    };
    inline Robot read(const std::string &file)
    {
        namespace pt = boost::property_tree; pt::ptree doc; { std::ifstream f(file); pt::read_xml(f, doc, pt::xml_parser::no_comments); }
        auto vec = [](const std::string &s) { std::istringstream i(s); Vector3d v; i >> v[0] >> v[1] >> v[2]; return v; };
        std::map<std::string, Link> all; std::vector<std::pair<std::string, std::string>> edges; std::set<std::string> children; Robot r;
        for (auto &e : doc.get_child("robot"))
        {
            if (e.first == "link") { Link &l = all[e.second.get<std::string>("<xmlattr>.name")]; l.name = e.second.get<std::string>("<xmlattr>.name"); if (auto in = e.second.get_child_optional("inertial")) { l.inertial = true; l.mass = in->get<double>("mass.<xmlattr>.value"); l.com = vec(in->get("origin.<xmlattr>.xyz", "0 0 0")); } }
            if (e.first == "joint")
            {
                std::string c = e.second.get<std::string>("child.<xmlattr>.link"), t = e.second.get<std::string>("<xmlattr>.type"); Link &l = all[c]; edges.push_back({e.second.get<std::string>("parent.<xmlattr>.link"), c}); children.insert(c);
                l.joint = e.second.get<std::string>("<xmlattr>.name"); l.lower = e.second.get("limit.<xmlattr>.lower", 0.); l.upper = e.second.get("limit.<xmlattr>.upper", 0.); l.velocity = e.second.get("limit.<xmlattr>.velocity", 0.);
                for (int k = 0; k < 6; ++k) if (t == kindName((Kind)k)) l.kind = (Kind)k;
                l.rpy = vec(e.second.get("origin.<xmlattr>.rpy", "0 0 0")); l.xyz = vec(e.second.get("origin.<xmlattr>.xyz", "0 0 0")); l.origin = frame(l.rpy, l.xyz); l.axis = vec(e.second.get("axis.<xmlattr>.xyz", "1 0 0"));
            }
        }
        for (auto &l : all) if (!children.count(l.first)) r.links.push_back(l.second);
        std::function<void(int)> visit = [&](int i) { for (auto &e : edges) if (e.first == r.links[i].name) { r.links.push_back(all[e.second]); r.links.back().parent = i; visit(r.links.size() - 1); } };
        visit(0); r.number(); return r;
    }
}

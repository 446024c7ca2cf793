/**
 * The bridge is written for yaml-cpp 0.3, the installed library is newer: the reading side of
 * the old interface on top of the installed parser. The emitter has the same interface.
 */
#pragma once
#include_next <yaml-cpp/yaml.h>
#include <memory>

namespace YAML03
{
    using ::YAML::Emitter; using ::YAML::Exception; using ::YAML::ParserException;
    using ::YAML::BeginMap; using ::YAML::EndMap; using ::YAML::BeginSeq; using ::YAML::EndSeq; using ::YAML::Key; using ::YAML::Value; using ::YAML::Flow; using ::YAML::Block; using ::YAML::Newline;
    struct NodeType { enum value { Null, Scalar, Sequence, Map }; };
    struct InvalidScalar : public std::runtime_error { InvalidScalar() : std::runtime_error("yaml: invalid scalar") {} };
    struct KeyNotFound : public std::runtime_error { KeyNotFound() : std::runtime_error("yaml: key not found") {} };

    class Node
    {
      private:
        NodeType::value type_; std::string scalar_; std::vector<std::unique_ptr<Node>> items_; std::vector<std::pair<std::string, std::unique_ptr<Node>>> entries_;
        Node(const Node &); Node &operator=(const Node &);
      public:
        Node() : type_(NodeType::Null) {}
        void assign(const ::YAML::Node &n, int depth = 0)
        {
            if (depth > 600) throw ParserException(::YAML::Mark::null_mark(), "too deep");
            type_ = NodeType::Null; scalar_.clear(); items_.clear(); entries_.clear();
            if (!n.IsDefined() || n.IsNull()) return;
            if (n.IsScalar()) { type_ = NodeType::Scalar; scalar_ = n.Scalar(); }
            else if (n.IsSequence()) { type_ = NodeType::Sequence; for (auto it = n.begin(); it != n.end(); ++it) { items_.emplace_back(new Node); items_.back()->assign(*it, depth + 1); } }
            else { type_ = NodeType::Map; for (auto it = n.begin(); it != n.end(); ++it) { std::unique_ptr<Node> v(new Node); v->assign(it->second, depth + 1); if (it->first.IsScalar()) entries_.emplace_back(it->first.Scalar(), std::move(v)); } }
        }
        NodeType::value Type() const { return type_; }
        std::size_t size() const { return type_ == NodeType::Sequence ? items_.size() : type_ == NodeType::Map ? entries_.size() : 0; }
        const Node *FindValue(const std::string &k) const { if (type_ == NodeType::Map) for (auto &e : entries_) if (e.first == k) return e.second.get(); return NULL; }
        const Node &operator[](const std::string &k) const { const Node *n = FindValue(k); if (!n) throw KeyNotFound(); return *n; }
        template <class I> const typename std::enable_if<std::is_integral<I>::value, Node>::type &operator[](const I i) const { if (type_ != NodeType::Sequence || i < 0 || static_cast<std::size_t>(i) >= items_.size()) throw KeyNotFound(); return *items_[i]; }
        bool GetScalar(std::string &s) const { if (type_ == NodeType::Null) { s = "~"; return true; } if (type_ != NodeType::Scalar) return false; s = scalar_; return true; }
    };
    template <class T> bool convert(const std::string &s, T &v) { return ::YAML::convert<T>::decode(::YAML::Node(s), v); }
    inline bool convert(const std::string &s, std::string &v) { v = s; return true; }
    template <class T> void operator>>(const Node &n, T &v) { std::string s; if (!n.GetScalar(s) || !convert(s, v)) throw InvalidScalar(); }
    template <class T> void operator>>(const Node &n, std::vector<T> &v) { v.clear(); v.resize(n.size()); for (std::size_t i = 0; i < v.size(); ++i) n[i] >> v[i]; }

    class Parser
    {
      private:
        std::istream *in_; std::size_t next_; std::vector<::YAML::Node> documents_; bool loaded_;
      public:
        Parser() : in_(NULL), next_(0), loaded_(false) {}
        explicit Parser(std::istream &in) { Load(in); }
        void Load(std::istream &in) { in_ = &in; next_ = 0; documents_.clear(); loaded_ = false; }
        bool GetNextDocument(Node &n)
        {
            if (!in_) return false;
            // only the first document: later ones are not looked at before they are asked for
            if (!loaded_) { loaded_ = true; ::YAML::Node d = ::YAML::Load(*in_); if (d.IsDefined()) documents_.push_back(d); }
            if (next_ >= documents_.size()) return false;
            n.assign(documents_[next_++]); return true;
        }
    };
}
#define YAML YAML03

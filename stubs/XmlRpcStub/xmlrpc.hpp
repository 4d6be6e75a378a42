// Stand-in for xmlrpcpp's XmlRpcValue: same type tags, same strict conversions (a wrong type throws).
#pragma once
#include <map>
#include <string>
#include <stdexcept>
#include <vector>

namespace XmlRpc {

struct XmlRpcException : public std::runtime_error {
    using std::runtime_error::runtime_error;
    std::string getMessage() const {
        return what();
    }
};

class XmlRpcValue {
public:
    enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
    using ValueStruct = std::map<std::string, XmlRpcValue>;
    using iterator = ValueStruct::iterator;
    using const_iterator = ValueStruct::const_iterator;

    XmlRpcValue() {}
    XmlRpcValue(bool v) : type_(TypeBoolean), b(v) {}
    XmlRpcValue(int v) : type_(TypeInt), i(v) {}
    XmlRpcValue(double v) : type_(TypeDouble), d(v) {}
    XmlRpcValue(const std::string& v) : type_(TypeString), s(v) {}
    XmlRpcValue(const char* v) : type_(TypeString), s(v) {}
    template<typename T>
    XmlRpcValue(const std::vector<T>& v) : type_(TypeArray), arr(v.begin(), v.end()) {}
    static XmlRpcValue Struct() {
        XmlRpcValue v;
        v.type_ = TypeStruct;
        return v;
    }
    static XmlRpcValue Array(const std::vector<XmlRpcValue>& e = {}) {
        XmlRpcValue v;
        v.type_ = TypeArray;
        v.arr = e;
        return v;
    }

    const Type& getType() const {
        return type_;
    }
    bool valid() const {
        return type_ != TypeInvalid;
    }
    int size() const {
        switch (type_) {
            case TypeString:
                return s.size();
            case TypeArray:
                return arr.size();
            case TypeStruct:
                return st.size();
            default:
                throw XmlRpcException("type error");
        }
    }
    bool hasMember(const std::string& name) const {
        return type_ == TypeStruct && st.count(name);
    }
    XmlRpcValue& operator[](int k) {
        need(TypeArray);
        if (k >= static_cast<int>(arr.size())) {
            arr.resize(k + 1);
        }
        return arr.at(k);
    }
    const XmlRpcValue& operator[](int k) const {
        need(TypeArray);
        return arr.at(k);
    }
    XmlRpcValue& operator[](const std::string& k) {
        if (type_ == TypeInvalid) {
            type_ = TypeStruct;
        }
        need(TypeStruct);
        return st[k];
    }
    XmlRpcValue& operator[](const char* k) {
        return (*this)[std::string(k)];
    }
    const XmlRpcValue& operator[](const std::string& k) const {
        need(TypeStruct);
        auto it = st.find(k);
        if (it == st.end()) {
            static const XmlRpcValue invalid;
            return invalid;
        }
        return it->second;
    }
    const XmlRpcValue& operator[](const char* k) const {
        return (*this)[std::string(k)];
    }
    iterator begin() {
        return st.begin();
    }
    iterator end() {
        return st.end();
    }
    const_iterator begin() const {
        return st.begin();
    }
    const_iterator end() const {
        return st.end();
    }
    operator bool&() {
        need(TypeBoolean);
        return b;
    }
    operator int&() {
        need(TypeInt);
        return i;
    }
    operator double&() {
        need(TypeDouble);
        return d;
    }
    operator std::string&() {
        need(TypeString);
        return s;
    }
    operator const bool&() const {
        need(TypeBoolean);
        return b;
    }
    operator const int&() const {
        need(TypeInt);
        return i;
    }
    operator const double&() const {
        need(TypeDouble);
        return d;
    }
    operator const std::string&() const {
        need(TypeString);
        return s;
    }

private:
    void need(Type t) const {
        if (type_ != t) {
            throw XmlRpcException("type error");
        }
    }
    Type type_{TypeInvalid};
    bool b{false};
    int i{0};
    double d{0};
    std::string s;
    std::vector<XmlRpcValue> arr;
    ValueStruct st;
};

}

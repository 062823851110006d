#include "bridge.h"
#include <fstream>
int vbNullMapValues = 0;
bool VWorld::load(const char *fds)
{
    gp::FileDescriptorSet set;
    std::ifstream in(fds, std::ios::binary);
    if (!set.ParseFromIstream(&in)) return false;
    for (int i = 0; i < set.file_size(); i++)
        if (!pool.FindFileByName(set.file(i).name()) && !pool.BuildFile(set.file(i))) return false;
    return true;
}
void VWorld::add(VClass c)
{
    c.desc = pool.FindMessageTypeByName(c.name);
    if (!c.desc) qFatal("no descriptor %s", c.name.c_str());
    c.proto = factory.GetPrototype(c.desc);
    classes[c.name] = c;
}
static void num(std::string &o, uint64_t v) { for (int i = 0; i < 8; i++) o += char(v >> (8 * i)); }
static void scalar(std::string &o, const gp::Message &m, const gp::FieldDescriptor *f, int i, bool &dflt)
{
    auto r = m.GetReflection();
    switch (f->cpp_type()) {
#define G(K, N) case gp::FieldDescriptor::CPPTYPE_##K: { auto v = i < 0 ? r->Get##N(m, f) : r->GetRepeated##N(m, f, i); dflt = v == 0; num(o, uint64_t(v)); break; }
    G(INT32, Int32) G(INT64, Int64) G(UINT32, UInt32) G(UINT64, UInt64) G(BOOL, Bool) G(ENUM, EnumValue)
#undef G
    case gp::FieldDescriptor::CPPTYPE_DOUBLE: {
        double d = i < 0 ? r->GetDouble(m, f) : r->GetRepeatedDouble(m, f, i);
        dflt = d == 0;
        if (d == 0) d = 0;
        if (d != d) o += "nan"; else { uint64_t u; memcpy(&u, &d, 8); num(o, u); }
        break;
    }
    case gp::FieldDescriptor::CPPTYPE_FLOAT: {
        float d = i < 0 ? r->GetFloat(m, f) : r->GetRepeatedFloat(m, f, i);
        dflt = d == 0;
        if (d == 0) d = 0;
        if (d != d) o += "nan"; else { uint32_t u; memcpy(&u, &d, 4); num(o, u); }
        break;
    }
    case gp::FieldDescriptor::CPPTYPE_STRING: {
        std::string s = i < 0 ? r->GetString(m, f) : r->GetRepeatedString(m, f, i);
        dflt = s.empty();
        num(o, s.size());
        o += s;
        break;
    }
    default: abort();
    }
}
std::string vbCanon(const gp::Message &m)
{
    std::string o;
    auto d = m.GetDescriptor();
    auto r = m.GetReflection();
    std::map<int, const gp::FieldDescriptor *> fields;
    for (int i = 0; i < d->field_count(); i++) fields[d->field(i)->number()] = d->field(i);
    for (auto &nf : fields) {
        auto f = nf.second;
        std::string v;
        if (f->is_map()) {
            std::map<std::string, std::string> e; // last entry of a key wins
            for (int i = 0; i < r->FieldSize(m, f); i++) {
                auto &p = r->GetRepeatedMessage(m, f, i);
                bool z; std::string k, w;
                scalar(k, p, f->message_type()->field(0), -1, z);
                auto vf = f->message_type()->field(1);
                if (vf->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE) w = vbCanon(p.GetReflection()->GetMessage(p, vf));
                else scalar(w, p, vf, -1, z);
                e[k] = w;
            }
            for (auto &kv : e) { num(v, kv.first.size()); v += kv.first; num(v, kv.second.size()); v += kv.second; }
        } else if (f->is_repeated()) {
            for (int i = 0; i < r->FieldSize(m, f); i++) {
                bool z; std::string w;
                if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE) w = vbCanon(r->GetRepeatedMessage(m, f, i));
                else scalar(w, m, f, i, z);
                num(v, w.size()); v += w;
            }
        } else if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE) {
            if (r->HasField(m, f)) v = vbCanon(r->GetMessage(m, f)); // an empty sub-message reads the same as an absent one
        } else {
            bool z = false;
            scalar(v, m, f, -1, z);
            if (z) v.clear();
        }
        if (!v.empty()) { num(o, nf.first); num(o, v.size()); o += v; }
    }
    return o;
}

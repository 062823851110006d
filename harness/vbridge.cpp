// vbridge FDS NAME: prints a C++ header that lists, for every message of the descriptor set (not imports of google.protobuf unless
// NAME starts with "wk"), the generated class and its accessors. The naming rules are restated here from the documented API
// (lowerCamel getter, set<UpperCamel> setter, reserved words get a _proto suffix, nested classes live in <Parent>_QtProtobufNested).
#include "naming.h"
int main(int argc, char **argv)
{
    FileDescriptorSet set;
    { std::ifstream in(argv[1], std::ios::binary); if (!set.ParseFromIstream(&in)) return 1; }
    std::string name = argv[2];
    bool wk = name.compare(0, 2, "wk") == 0;
    if (argc > 3) extra = argv[3];
    DescriptorPool pool;
    std::vector<const Descriptor *> msgs;
    std::cout << "// generated by vbridge\n#pragma once\n#include \"bridge.h\"\n";
    for (int i = 0; i < set.file_size(); i++) {
        const FileDescriptor *f = pool.BuildFile(set.file(i));
        if (!f) return 2;
        if (!wk && f->package() == "google.protobuf") continue;
        std::string n = f->name();
        if (!wk) { size_t s = n.rfind('/'); if (s != std::string::npos && f->package() != "QtProtobuf") n = n.substr(s + 1); }
        n = n.substr(0, n.rfind('.'));
        std::cout << "#include \"" << n << ".qpb.h\"\n";
        for (int j = 0; j < f->message_type_count(); j++) walk(f->message_type(j), msgs);
    }
    for (auto d : msgs) {
        std::cout << "template<> struct VB<" << cls(d) << "> {\n  typedef " << cls(d) << " C;\n  static const char *name() { return \"" << d->full_name() << "\"; }\n"
                  << "  template<class V> static void visit(V &v) {\n";
        for (int i = 0; i < d->field_count(); i++) {
            auto f = d->field(i);
            std::string p = prop(f);
            std::cout << "    v(\"" << f->name() << "\", [](const C &c) -> typename VDecay<decltype(c." << p << "())>::type { return c." << p
                      << "(); }, [](C &c, const typename VDecay<decltype(std::declval<const C &>()." << p << "())>::type &x) { c.set" << up(p) << "(x); });\n";
        }
        std::cout << "    (void)v;\n  }\n  static const int fields = " << d->field_count() << ";\n";
        // the constructor that takes the first n fields; v.arg<T>(i) supplies field i
        std::cout << "  template<class V> static C *construct(int n, V &v) {\n    switch (n) {\n    case 0: return new C;\n";
        std::string args;
        bool self = false;
        for (int i = 0; i < d->field_count(); i++) {
            auto f = d->field(i);
            if (i == 0 && f->message_type() == d && !f->is_repeated()) self = true;
            args += std::string(i ? ", " : "") + "v.template arg<typename VDecay<decltype(std::declval<const C &>()." + prop(f) + "())>::type>(" + std::to_string(i) + ")";
            if (i == 0 && self) continue; // would be the copy constructor
            std::cout << "    case " << i + 1 << ": return new C(" << args << ");\n";
        }
        std::cout << "    }\n    (void)v;\n    return nullptr;\n  }\n};\n";
    }
    std::cout << "#define VB_MESSAGES_" << name << "(X)";
    for (auto d : msgs) std::cout << " \\\n  X(" << cls(d) << ")";
    std::cout << "\n";
}

// P11: every sequence of plugin loads and serializer lookups up to a depth, each in a fresh registry.
#include <QtCore>
#include <memory>
#include <unordered_map>
#include <type_traits>
#include <qabstractprotobufserializer.h>
#define private public
#include <qprotobufserializerregistry_p.h>
#undef private
#include <qprotobufserializer.h>
#include "core.h"
#include "wire.qpb.h"
#include <set>
using namespace QtProtobuf;
struct Alive { QProtobufSerializerRegistry *r; };
typedef std::shared_ptr<QAbstractProtobufSerializer> S;
static std::string mark(QAbstractProtobufSerializer *s)
{
    vw::Leaf l;
    l.setNum(1);
    QByteArray b = l.serialize(s);
    return b == QByteArray("\x08\x02") ? "default" : b.toStdString();
}
struct Plugin { const char *file, *name; float version, protoVersion; int rating; std::vector<const char *> types; const char *mark; };
static const Plugin plugins[] = {
    {"pluga", "PlugA", 1.5f, 3.0f, 7, {"protobuf", "foo"}, "a"},
    {"plugb", "PlugB", 2.25f, 1.0f, 0, {"json"}, "b"},
    {"plugc", "PlugA", 9.0f, 9.0f, 9, {"protobuf", "json", "bar"}, "c"}, // another file, the same plugin name
    {"plugd", "Default", 4.0f, 4.0f, 4, {"protobuf", "json"}, "d"},      // claims the name of the built-in implementation
    {"missing", "", 0, 0, 0, {}, ""},
    {"garbage", "", 0, 0, 0, {}, ""},
    {"noplugin", "", 0, 0, 0, {}, ""},
};
static const char *ids[] = {"protobuf", "json", "foo", "bar", "nope", ""};
static const char *names[] = {"Default", "PlugA", "PlugB", "Unknown", ""};
struct World {
    QProtobufSerializerRegistry *r;
    std::map<std::string, const Plugin *> loaded;
    std::map<std::string, S> got; // key plugin/id
    std::string expectMark(const std::string &plugin, const std::string &id)
    {
        if (plugin == "Default") return id == "protobuf" ? "default" : id == "json" ? "json" : "";
        auto it = loaded.find(plugin);
        if (it == loaded.end()) return "";
        for (auto t : it->second->types) if (id == t) return std::string(it->second->mark) + ":" + id;
        return "";
    }
    void lookup(const std::string &plugin, const std::string &id, bool oneArg)
    {
        std::string want = expectMark(plugin, id), what = "getSerializer(" + id + (oneArg ? "" : ", " + plugin) + ")";
        S s;
        bool thrown = false;
        try { s = oneArg ? r->getSerializer(id.c_str()) : r->getSerializer(id.c_str(), plugin.c_str()); } catch (const std::exception &) { thrown = true; }
        if (want.empty()) { if (!thrown && !s) CORE.fail(what + " returns nothing instead of throwing"); else if (s) CORE.fail(what + " returns a serializer for something unknown"); return; }
        if (!s) { CORE.fail(what + (thrown ? " throws" : " returns nothing") + " although the plugin provides it"); return; }
        if (want != "json") { std::string m = mark(s.get()); if (m != want) { CORE.fail(what + " returns implementation " + m + " instead of " + want); return; } }
        std::string key = plugin + "/" + id;
        if (got.count(key) && got[key] != s) { CORE.fail(what + " returns another object than before"); return; }
        for (auto &g : got) if (g.first != key && g.second == s) { CORE.fail(what + " returns the object of " + g.first); return; }
        got[key] = s;
    }
    void load(const Plugin &p)
    {
        QString n = r->loadPlugin(p.file);
        if (n != p.name) CORE.fail(std::string("loadPlugin(") + p.file + ") returns " + n.toStdString());
        std::string name = p.name;
        if (!name.empty() && name != "Default" && !loaded.count(name)) loaded[name] = &p;
    }
    void query(const std::string &plugin)
    {
        auto it = loaded.find(plugin);
        const Plugin *p = it == loaded.end() ? nullptr : it->second;
        QString n = plugin.c_str();
        QStringList types;
        if (p) for (auto t : p->types) types << t;
        if (r->pluginVersion(n) != (p ? p->version : 0) || r->pluginProtobufVersion(n) != (p ? p->protoVersion : 0) || r->pluginRating(n) != (p ? p->rating : 0) || r->pluginSerializers(n) != types)
            CORE.fail("information about plugin '" + plugin + "' is wrong");
    }
};
int main(int argc, char **argv)
{
    CORE.init(argc, argv);
    QCoreApplication app(argc, argv);
    QString dir = QFileInfo(argv[0]).absolutePath() + "/../plugins";
    qputenv("QT_PROTOBUF_PLUGIN_PATH", dir.toUtf8());
    qRegisterProtobufTypes();
    qRegisterProtobufType<vw::Leaf>();
    struct Op { std::string name; std::function<void(World &)> run; };
    std::vector<Op> ops;
    for (auto &p : plugins) ops.push_back({std::string("load ") + p.file, [&p](World &w) { w.load(p); }});
    for (auto id : {"protobuf", "nope"}) ops.push_back({std::string("get ") + id, [id](World &w) { w.lookup("Default", id, true); }});
    for (auto n : names) {
        for (auto id : {"protobuf", "json", "nope"}) ops.push_back({std::string("get ") + id + " of " + n, [id, n](World &w) { w.lookup(n, id, false); }});
        ops.push_back({std::string("query ") + n, [n](World &w) { w.query(n); }});
    }
    int depth = CORE.thorough() ? 5 : 4;
    CORE.paths(6, 1, [&] {
        World w;
        w.r = new QProtobufSerializerRegistry;
        std::string d;
        for (int i = 0; i < depth && !CORE.failed; i++) {
            int c = CORE.choose(int(ops.size()));
            d += " | " + ops[c].name;
            CORE.desc = d;
            ops[c].run(w);
        }
        // afterwards everything is still there
        for (auto &g : std::map<std::string, S>(w.got)) if (!CORE.failed && g.first != "Default/json" && mark(g.second.get()).empty()) CORE.fail("a serializer obtained before does not work any more");
        for (auto n : names) { for (auto id : ids) if (!CORE.failed) w.lookup(n, id, false); if (!CORE.failed) w.query(n); }
        for (auto id : ids) if (!CORE.failed) w.lookup("Default", id, true);
        std::string st;
        for (auto &l : w.loaded) st += l.first + l.second->file + ",";
        CORE.state(d);
        CORE.outcome(st);
        if (!w.loaded.empty()) CORE.count("nontrivial");
        CORE.sample(d);
        if (CORE.failed) CORE.failure = d + " -- " + CORE.failure;
        w.got.clear();
        delete w.r;
    });
    return CORE.finish();
}

// C21: loggers against a reference (level, name, sinks), over all levels, severities and bounded histories.
#include <cstdio>
#include <functional>
#include <fcntl.h>
#include <string>
#include <unistd.h>
#include <vector>

#include "logging/Logger.h"
#include "logging/LoggingLevelConversion.h"
#include "mc.hpp"
#include "modbus/UnitIdentifier.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/messages/ExceptionType.h"
#include "spdlog/sinks/base_sink.h"
#include "spdlog/spdlog.h"

using namespace modbus;
using mc::Ctx;

namespace
{

struct Msg { std::string name, text; spdlog::level::level_enum level; };

struct Recorder : spdlog::sinks::sink
{
    std::vector<Msg> got;
    void log(const spdlog::details::log_msg& m) override { got.push_back({std::string(m.logger_name.data(), m.logger_name.size()), std::string(m.payload.data(), m.payload.size()), m.level}); }
    void flush() override {}
    void set_pattern(const std::string&) override {}
    void set_formatter(std::unique_ptr<spdlog::formatter>) override {}
};

const LoggingLevel Levels[] = {LoggingLevel::Trace, LoggingLevel::Debug, LoggingLevel::Info, LoggingLevel::Warn, LoggingLevel::Error, LoggingLevel::Critical};
const spdlog::level::level_enum Spd[] = {spdlog::level::trace, spdlog::level::debug, spdlog::level::info, spdlog::level::warn, spdlog::level::err, spdlog::level::critical};
const char* LevelNames[] = {"trace", "debug", "info", "warn", "error", "critical"};

// Logs one message in one of the ways the interface offers; returns the text expected.
std::string emit(Logger& l, int severity, int way)
{
    auto call = [&](auto&&... a) {
        switch(severity)
        {
        case 0: l.trace(a...); break;
        case 1: l.debug(a...); break;
        case 2: l.info(a...); break;
        case 3: l.warn(a...); break;
        case 4: l.error(a...); break;
        default: l.critical(a...); break;
        }
    };
    switch(way)
    {
    case 0: call("plain text"); return "plain text";
    case 1: call(std::string("a string with {} braces and %s")); return "a string with {} braces and %s";
    case 2: call("one {}", 7); return "one 7";
    case 3: call("three {} {} {}", 1, std::string("two"), "three"); return "three 1 two three";
    case 4: call("unit {}", UnitIdentifier{0xAB}); return "unit 0xAB";
    case 5: call("again {1} {0} {1}", 1, 2); return "again 2 1 2";
    case 6: call("type {} argument '{}'", ExceptionType::ServerDeviceBusy, std::string("{}")); return "type Server device busy argument '{}'";
    case 7: { const std::string big(5000, 'q'); call("big {}", big); return "big " + big; }
    default: call(std::string()); return "";
    }
}
constexpr int Ways = 9;

struct Ref { std::string name; int level; };

struct World
{
    Ctx& c;
    std::vector<std::shared_ptr<Recorder>> sinks;
    std::vector<std::shared_ptr<spdlog::logger>> spd;
    std::vector<std::shared_ptr<Logger>> loggers;
    std::vector<Ref> refs;
    explicit World(Ctx& ctx, int nsinks) : c(ctx) { for(int i = 0; i < nsinks; ++i) sinks.push_back(std::make_shared<Recorder>()); }

    void root(const std::string& name, int level) // level -1: default argument
    {
        spd.push_back(std::make_shared<spdlog::logger>(name, sinks.begin(), sinks.end()));
        loggers.push_back(level < 0 ? LoggerFactory::create_custom_logger(spd.back()) : LoggerFactory::create_custom_logger(spd.back(), Levels[level]));
        refs.push_back({name, level < 0 ? 2 : level});
    }
    // Every severity to this logger in one way.
    void say(size_t i, int severity, int way)
    {
        for(auto& s : sinks) s->got.clear();
        const std::string text = emit(*loggers[i], severity, way);
        const bool expected = severity >= refs[i].level;
        c.step();
        for(size_t k = 0; k < sinks.size(); ++k)
        {
            auto& got = sinks[k]->got;
            c.checked();
            c.observe(got.size());
            if(got.size() != (expected ? 1u : 0u)) c.fail("a %s message to logger '%s' with level %s reached sink %zu %zu times, expected %d", LevelNames[severity], refs[i].name.c_str(), LevelNames[refs[i].level], k, got.size(), expected);
            if(!expected) continue;
            if(got[0].text != text) c.fail("the message '%s' arrived as '%s'", text.c_str(), got[0].text.c_str());
            if(got[0].name != refs[i].name) c.fail("a message of logger '%s' arrived under the name '%s'", refs[i].name.c_str(), got[0].name.c_str());
            if(got[0].level != Spd[severity]) c.fail("a %s message arrived with severity %d", LevelNames[severity], got[0].level);
        }
    }
    void say_all(int way) { for(size_t i = 0; i < loggers.size(); ++i) for(int s = 0; s < 6; ++s) say(i, s, way); }
};

// Every level with every severity, in every way, with 0..3 sinks.
void levels(Ctx& c)
{
    const int level = c.choose(7, "level") - 1, nsinks = c.choose(4, "sinks"), way = c.choose(Ways, "way of logging");
    World w(c, nsinks);
    w.root("root logger", level);
    c.note("level %s, %d sinks, way %d", level < 0 ? "default" : LevelNames[level], nsinks, way);
    w.say_all(way);
    for(int cl = 0; cl < 7; ++cl)
    {
        auto l = cl == 6 ? w.loggers[0]->clone("clone") : w.loggers[0]->clone("clone", Levels[cl]);
        w.loggers.push_back(l);
        w.refs.push_back({"clone", cl == 6 ? 2 : cl});
    }
    w.say_all(way);
    if(level >= 0 && to_spdlog_level(Levels[level]) != Spd[level]) c.fail("level %s converts to %d", LevelNames[level], to_spdlog_level(Levels[level]));
    c.state();
    c.nontrivial();
}

// Histories: derive a logger from any logger (with a level or without), wrap a custom logger again with
// another level (a level change), drop a logger; after each operation every logger is asked everything.
void histories(Ctx& c, int depth)
{
    World w(c, 2);
    w.root("root", c.choose(2, "root level") ? 4 : 1);
    for(int d = 0; d < depth; ++d)
    {
        const int n = static_cast<int>(w.loggers.size());
        int op = c.choose(6 * n + 3, "operation");
        const std::string name = "logger" + std::to_string(d);
        if(op < 6 * n)
        {
            const size_t i = static_cast<size_t>(op / 6);
            static const int lv[] = {0, 2, 3, 5};
            op %= 6;
            if(op < 4) { c.note("clone %zu with level %s", i, LevelNames[lv[op]]); w.loggers.push_back(w.loggers[i]->clone(name, Levels[lv[op]])); w.refs.push_back({name, lv[op]}); }
            else if(op == 4) { c.note("clone %zu", i); w.loggers.push_back(w.loggers[i]->clone(name)); w.refs.push_back({name, 2}); }
            else if(w.loggers.size() > 1) { c.note("drop %zu", i); if(i == 0) w.spd[0].reset(); w.loggers.erase(w.loggers.begin() + static_cast<long>(i)); w.refs.erase(w.refs.begin() + static_cast<long>(i)); }
        }
        else if(w.spd[0])
        {
            static const int lv[] = {0, 3, 5};
            op -= 6 * n;
            c.note("change the custom logger's level to %s", LevelNames[lv[op]]);
            // The new handle and the one from before share the custom logger, hence its level.
            auto l = LoggerFactory::create_custom_logger(w.spd[0], Levels[lv[op]]);
            w.loggers[0] = l;
            w.refs[0].level = lv[op];
        }
        w.say_all(2 + d % 3);
        c.state();
    }
    c.nontrivial();
}

// What reaches the process's own outputs.
std::string capture(const std::function<void()>& f)
{
    char name[] = "/tmp/c21XXXXXX";
    const int fd = mkstemp(name);
    unlink(name);
    fflush(nullptr);
    const int o1 = dup(1), o2 = dup(2);
    dup2(fd, 1); dup2(fd, 2);
    f();
    fflush(nullptr);
    dup2(o1, 1); dup2(o2, 2);
    close(o1); close(o2);
    std::string s(static_cast<size_t>(lseek(fd, 0, SEEK_END)), 0);
    if(pread(fd, &s[0], s.size(), 0) != static_cast<ssize_t>(s.size())) s = "?";
    close(fd);
    return s;
}

// The null logger and everything derived from it emit nothing, and leave other loggers alone.
void null_logger(Ctx& c)
{
    const int way = c.choose(Ways, "way"), cl = c.choose(8, "clone");
    World w(c, 1);
    w.root("other", 0);
    const std::string out = capture([&] {
        auto l = LoggerFactory::create_null_logger("null");
        if(cl < 6) l = l->clone("clone", Levels[cl]);
        if(cl == 6) l = l->clone("clone");
        for(int s = 0; s < 6; ++s) emit(*l, s, way);
        auto again = LoggerFactory::create_null_logger("null"); // the same name is no conflict
        for(int s = 0; s < 6; ++s) emit(*again, s, way);
    });
    c.step(12); c.checked();
    c.note("way %d clone %d", way, cl);
    if(!out.empty()) c.fail("the null logger wrote '%s'", out.c_str());
    if(!w.sinks[0]->got.empty()) c.fail("the null logger wrote to another logger's sink");
    w.say_all(way);
    c.state();
    c.nontrivial();
}

// The console logger writes exactly the messages at or above its level, with name and text, and so do clones.
void console_logger(Ctx& c)
{
    const int level = c.choose(7, "level") - 1, cl = c.choose(8, "clone");
    const std::string out = capture([&] {
        auto l = level < 0 ? LoggerFactory::create_console_logger("console") : LoggerFactory::create_console_logger("console", Levels[level]);
        if(cl < 6) l = l->clone("derived", Levels[cl]);
        if(cl == 6) l = l->clone("derived");
        for(int s = 0; s < 6; ++s) emit(*l, s, s % 3 + 2);
        spdlog::drop("console");
    });
    const int eff = cl < 6 ? cl : cl == 6 ? 2 : level < 0 ? 2 : level;
    size_t lines = 0;
    for(char ch : out) if(ch == '\n') ++lines;
    c.step(6); c.checked(1);
    c.note("console level %d clone %d:\n%s", level, cl, out.c_str());
    if(lines != static_cast<size_t>(6 - eff)) c.fail("the console logger with level %s wrote %zu lines, expected %d", LevelNames[eff], lines, 6 - eff);
    size_t from = 0;
    static const char* texts[] = {"one 7", "three 1 two three", "unit 0xAB"};
    for(int s = eff; s < 6; ++s)
    {
        const size_t e = out.find('\n', from);
        const std::string line = out.substr(from, e - from);
        from = e + 1;
        c.checked();
        if(line.find(texts[s % 3]) == std::string::npos || line.find(cl < 7 ? "derived" : "console") == std::string::npos || line.find(LevelNames[s]) == std::string::npos) c.fail("the console line for severity %s is '%s'", LevelNames[s], line.c_str());
    }
    c.observe(lines);
    c.state();
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C21";
    o.quick = {
        {"levels", levels, 0, "all 7 level arguments x 6 severities x 9 ways of logging x 0..3 sinks, and 7 clones of each"},
        {"histories", [](Ctx& c) { histories(c, 4); }, 0, "all histories of 4 operations: derive from any logger (5 ways), drop any, change the custom logger's level (3 levels), from two root levels"},
        {"null logger", null_logger, 0, ""},
        {"console logger", console_logger, 0, ""}};
    o.thorough = o.quick;
    o.thorough.push_back({"histories of 5", [](Ctx& c) { histories(c, 5); }, 0, "as above, 5 operations"});
    o.rule = "Each execution builds loggers through the real factory over recording sinks, logs every severity to every logger and compares what each sink received with the reference.";
    o.assumptions = {"spdlog's sinks receive what spdlog's logger passes them", "sinks' own levels are spdlog's default", "console lines are recognised by name, level name and text"};
    return mc::main(argc, argv, o);
}

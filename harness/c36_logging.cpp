// C36: the logging level is what was set, and filters what is logged.
#include <knp/framework/logging.h>

#include <spdlog/sinks/base_sink.h>
#include <spdlog/spdlog.h>

#include <climits>
#include <map>
#include <mutex>

#include "vp.hpp"

namespace lg = knp::framework::logging;

namespace
{
const std::vector<std::string> names{"trace", "debug", "info", "warning", "error", "critical", "none"};
const std::map<std::string, int> levels{{"trace", 0}, {"debug", 1}, {"info", 2}, {"warning", 3}, {"warn", 3}, {"error", 4}, {"err", 4}, {"critical", 5}};

struct Record
{
    std::string logger;
    int level;
    std::string text;
    bool operator==(const Record &o) const { return logger == o.logger && level == o.level && text == o.text; }
};
std::ostream &operator<<(std::ostream &s, const Record &r) { return s << r.logger << " " << r.level << " '" << r.text << "'"; }

struct Sink : spdlog::sinks::base_sink<std::mutex>
{
    std::vector<Record> *out;
    explicit Sink(std::vector<Record> *o) : out(o) {}
    void sink_it_(const spdlog::details::log_msg &m) override
    {
        out->push_back({std::string(m.logger_name.data(), m.logger_name.size()), static_cast<int>(m.level), std::string(m.payload.data(), m.payload.size())});
    }
    void flush_() override {}
};

// Any value of the type: levels, and values that are not.
int gen_value(vp::Case &c)
{
    switch (c.weighted({6, 1, 1, 1, 1}))
    {
        case 0: return static_cast<int>(c.range(0, 6));
        case 1: return static_cast<int>(c.range(7, 300));
        case 2: return static_cast<int>(-c.range(1, 300));
        case 3: return c.pick_of({INT_MIN, INT_MAX, INT_MIN + 1, 1 << 8, 1 << 16, (1 << 16) + 3, -256});
        default: return static_cast<int>(static_cast<uint32_t>(c.bits64()));
    }
}

int effective(int v) { return v >= 0 && v <= 6 ? v : 6; }

// A history of settings, new loggers and messages.
void history(vp::Case &c)
{
    std::vector<Record> got, expected;
    auto old = spdlog::default_logger();
    spdlog::drop_all();
    auto make = [&](const std::string &name)
    {
        auto l = std::make_shared<spdlog::logger>(name, std::make_shared<Sink>(&got));
        spdlog::initialize_logger(l);
        return l;
    };
    int level = effective(gen_value(c));
    lg::set_level(static_cast<lg::Level>(level));
    std::vector<std::shared_ptr<spdlog::logger>> all{make("0")};
    spdlog::set_default_logger(all[0]);
    unsigned passed = 0, held = 0, sets = 0;
    for (size_t n = c.len(1, 30); n; --n)
    {
        switch (c.weighted({3, 6, 1, 1, 2}))
        {
            case 0:
            {
                const int v = gen_value(c);
                VP_NOTE(c, "set " << v << "\n");
                lg::set_level(static_cast<lg::Level>(v));
                // A value that is not a level disables logging, nothing else.
                level = effective(v);
                got.clear();  // of messages about the value itself
                ++sets;
                break;
            }
            case 1:
            {
                const int l = static_cast<int>(c.range(0, 5));
                auto &to = c.pick(all);
                const std::string text = VP_STR("message " << n);
                VP_NOTE(c, "log " << l << " to " << to->name() << "\n");
                got.clear();
                expected.clear();
                // Each level enables the levels that are not lower.
                if (l >= level) expected.push_back({to->name(), l, text});
                to->log(static_cast<spdlog::level::level_enum>(l), "{}", text);
                expected.empty() ? ++held : ++passed;
                VP_CHECK(c, got == expected, "filter", "level " << level << ", message of level " << l << ": [" << vp::join(got) << "], expected [" << vp::join(expected) << "]");
                break;
            }
            case 2:
                VP_NOTE(c, "new logger\n");
                all.push_back(make(std::to_string(all.size())));
                break;
            case 3:
                if (all.size() > 1)
                {
                    // The library forgets the former default logger.
                    auto former = spdlog::default_logger();
                    spdlog::set_default_logger(c.pick(all));
                    if (!spdlog::get(former->name())) spdlog::register_logger(former);
                    VP_NOTE(c, "default logger " << spdlog::default_logger()->name() << "\n");
                }
                break;
            default:
                break;
        }
        VP_EQ(c, static_cast<int>(lg::get_level()), level, "get", "");
        VP_EQ(c, static_cast<int>(spdlog::get_level()), level, "spdlog-level", "");
        for (auto &l : all) VP_EQ(c, static_cast<int>(l->level()), level, "logger-level", "logger " << l->name());
    }
    // The other way: the level is set with the library.
    const int direct = static_cast<int>(c.range(0, 6));
    spdlog::set_level(static_cast<spdlog::level::level_enum>(direct));
    VP_EQ(c, static_cast<int>(lg::get_level()), direct, "get", "set with spdlog");
    spdlog::drop_all();
    spdlog::set_default_logger(old);
    spdlog::set_level(spdlog::level::info);
    if (passed && held && sets >= 2) c.nontrivial();
}

// Text that is near a name of a level, or not.
std::string gen_text(vp::Case &c)
{
    std::string s;
    if (c.chance(4, 5))
        s = c.pick_of<std::string>({"trace", "debug", "info", "warning", "error", "critical", "none", "warn", "err", "off", "fatal", "ERROR", "Warning", "unknown", "n_levels"});
    if (c.flag())
        for (size_t n = c.range(1, 3); n; --n)
        {
            const size_t at = c.draw(s.size() + 1);
            const char x = c.chance(2, 3) ? c.pick_of({' ', 'e', 'E', 'n', 's', 'w', '\n', '\0', '0', '6'}) : static_cast<char>(c.draw(256));
            switch (c.draw(3))
            {
                case 0: s.insert(at, 1, x); break;
                case 1: s = s.substr(0, at); break;
                default:
                    if (at < s.size()) s[at] = x;
            }
        }
    else if (c.chance(1, 6))
        s = std::string(c.range(1, 3000), static_cast<char>('a' + c.draw(26)));
    return s;
}

void text(vp::Case &c)
{
    const std::string s = gen_text(c);
    // The end of the text is where its view ends, not a zero after it.
    const std::string buffer = (c.flag() ? "x" : "") + s + (c.flag() ? "" : c.pick_of<std::string>({"s", " ", "ing", "or", "e"}));
    const std::string_view view = std::string_view(buffer).substr(buffer.size() && buffer[0] == 'x' && buffer.compare(1, s.size(), s) == 0 ? 1 : 0, s.size());
    if (view != s) c.discard();
    VP_NOTE(c, "'" << s << "' in '" << buffer << "'\n");
    const auto it = levels.find(s);
    const int expected = it == levels.end() ? 6 : it->second;
    VP_EQ(c, static_cast<int>(lg::str_to_level(view)), expected, "parse", "'" << s << "'");
    if (it == levels.end() && !s.empty()) c.nontrivial();
    c.label(expected == 6 ? "none" : "level");
}

void values(vp::Case &c)
{
    const int v = gen_value(c);
    VP_NOTE(c, v << "\n");
    const int e = effective(v);
    const auto level = static_cast<lg::Level>(v);
    const std::string name = lg::level_to_str(level);
    if (v == e)
    {
        VP_EQ(c, name, names[v], "name", v);
        VP_EQ(c, static_cast<int>(lg::str_to_level(name)), v, "round-trip", name);
        const int other = static_cast<int>(c.range(0, 6));
        if (other != v) VP_CHECK(c, lg::level_to_str(static_cast<lg::Level>(other)) != name, "distinct", v << " and " << other << " are both " << name);
    }
    else
    {
        // Not a level: its text does not name one.
        VP_EQ(c, static_cast<int>(lg::str_to_level(name)), 6, "not-a-level", v << " is '" << name << "'");
        c.nontrivial();
    }
}
}  // namespace

int main(int argc, char **argv)
{
    spdlog::default_logger()->sinks().clear();
    return vp::run_main(
        argc, argv, "C36",
        {
            {"history", "up to 30 operations: any value set as the level, loggers made and made the default one, messages of any level logged; level and what arrives compared with a model after each; "
                        "non-trivial: at least 2 settings, a message that passed and one that did not", history, 8000},
            {"text", "names of levels, changed names and other text, in longer buffers; non-trivial: not a name and not empty", text, 10000},
            {"values", "any value of the type; non-trivial: not a level", values, 10000},
        },
        {}, {"messages are logged through loggers, not through macros with a level fixed at compile time"});
}

#pragma once
// Reading the Prometheus text exposition format, strictly.
#include "opts.hpp"
#include "reg.hpp"
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
namespace vf
{
namespace prom
{
struct Sample { std::string name; std::vector<std::pair<std::string, std::string>> labels; std::string value; double number; int type_line; };
struct Text { std::vector<Sample> samples; std::vector<std::pair<std::string, std::string>> types; std::vector<std::pair<std::string, std::string>> helps; };
inline std::string quote(const std::string &s)
{
    std::string o; char b[8]; for (unsigned char c : s.substr(0, 400)) if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; return o;
}
inline bool name_start(char c, bool colon) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (colon && c == ':'); }
inline bool name_char(char c, bool colon) { return name_start(c, colon) || (c >= '0' && c <= '9'); }
// one token of a name
inline std::string name_at(const std::string &l, size_t &i, bool colon)
{
    size_t s = i; if (i < l.size() && name_start(l[i], colon)) { ++i; while (i < l.size() && name_char(l[i], colon)) ++i; }
    VF_CHECK(i > s, "name", "no valid %s name at column %zu of '%s'", colon ? "metric" : "label", s, quote(l).c_str()); return l.substr(s, i - s);
}
inline double number_of(const std::string &t, const std::string &l)
{
    std::string u; for (char c : t) u += (char)tolower(c); std::string body = u.size() && (u[0] == '+' || u[0] == '-') ? u.substr(1) : u;
    if (u == "nan") return std::nan(""); if (body == "inf" || body == "infinity") return u[0] == '-' ? -HUGE_VAL : HUGE_VAL;
    VF_CHECK(!body.empty() && body.find_first_not_of("0123456789.e+-") == std::string::npos, "number", "'%s' is not a number in '%s'", quote(t).c_str(), quote(l).c_str());
    char *end = nullptr; double d = strtod(u.c_str(), &end); VF_CHECK(end && !*end, "number", "'%s' is not a number in '%s'", quote(t).c_str(), quote(l).c_str()); return d;
}
// every line of one block of text parses
inline Text parse(const std::string &text)
{
    Text t; size_t at = 0; VF_CHECK(text.empty() || text.back() == '\n', "line-end", "the text does not end with a line end");
    while (at < text.size())
    {
        size_t e = text.find('\n', at); std::string l = text.substr(at, e - at); at = e + 1;
        if (l.empty()) continue;
        if (l[0] == '#')
        {
            bool type = l.compare(0, 7, "# TYPE ") == 0, help = l.compare(0, 7, "# HELP ") == 0; if (!type && !help) continue; // a comment
            size_t i = 7; std::string n = name_at(l, i, true);
            if (type) { VF_CHECK(i < l.size() && l[i] == ' ', "type-line", "'%s'", quote(l).c_str()); std::string k = l.substr(i + 1); VF_CHECK(k == "counter" || k == "gauge" || k == "histogram" || k == "summary" || k == "untyped", "type-line", "'%s' is not a type in '%s'", quote(k).c_str(), quote(l).c_str()); t.types.emplace_back(n, k); }
            else
            {
                VF_CHECK(i == l.size() || l[i] == ' ', "help-line", "'%s'", quote(l).c_str()); std::string h;
                for (size_t k = i + 1; k < l.size(); k++) { if (l[k] != '\\') { h += l[k]; continue; } ++k; VF_CHECK(k < l.size() && (l[k] == '\\' || l[k] == 'n'), "help-escape", "a bad escape in '%s'", quote(l).c_str()); h += l[k] == 'n' ? '\n' : '\\'; }
                t.helps.emplace_back(n, h);
            }
            continue;
        }
        Sample s; size_t i = 0; s.name = name_at(l, i, true); s.type_line = (int)t.types.size() - 1;
        if (i < l.size() && l[i] == '{')
        {
            ++i; bool first = true;
            while (i < l.size() && l[i] != '}')
            {
                if (!first) { VF_CHECK(l[i] == ',', "labels", "no comma at column %zu of '%s'", i, quote(l).c_str()); ++i; if (i < l.size() && l[i] == '}') break; }
                first = false; std::string n = name_at(l, i, false); VF_CHECK(i + 1 < l.size() && l[i] == '=' && l[i + 1] == '"', "labels", "no =\" at column %zu of '%s'", i, quote(l).c_str()); i += 2; std::string v;
                for (;; ++i)
                {
                    VF_CHECK(i < l.size(), "label-value", "a label value doesn't end in '%s'", quote(l).c_str());
                    if (l[i] == '"') { ++i; break; }
                    if (l[i] == '\\') { ++i; VF_CHECK(i < l.size() && (l[i] == '\\' || l[i] == '"' || l[i] == 'n'), "label-escape", "a bad escape in '%s'", quote(l).c_str()); v += l[i] == 'n' ? '\n' : l[i]; }
                    else v += l[i];
                }
                s.labels.emplace_back(n, v);
            }
            VF_CHECK(i < l.size() && l[i] == '}', "labels", "the labels don't end in '%s'", quote(l).c_str()); ++i;
        }
        VF_CHECK(i < l.size() && l[i] == ' ', "value-gap", "no space before the value at column %zu of '%s'", i, quote(l).c_str()); ++i;
        s.value = l.substr(i); s.number = number_of(s.value, l); t.samples.push_back(s);
    }
    return t;
}
// a label that names a window, in nanoseconds
inline int64_t window_of(const std::string &s)
{
    char *e = nullptr; long double v = strtold(s.c_str(), &e); std::string u = e ? e : ""; static const std::map<std::string, long double> units{{"nsec", 1}, {"usec", 1e3L}, {"msec", 1e6L}, {"sec", 1e9L}, {"min", 60e9L}, {"hr", 3600e9L}};
    auto it = units.find(u); VF_CHECK(it != units.end() && e != s.c_str(), "window-label", "'%s' is no window", quote(s).c_str()); return (int64_t)std::llround((double)(v * it->second));
}
}
}

// Stand-in for the part of csv2 that the repository uses (the library is not installed here).
#pragma once

#include <fstream>
#include <sstream>
#include <string>
#include <vector>

namespace csv2
{
template <char c>
struct delimiter { static constexpr char value = c; };
template <char c>
struct quote_character { static constexpr char value = c; };
template <bool b>
struct first_row_is_header { static constexpr bool value = b; };
namespace trim_policy
{
template <char... c>
struct trim_characters
{
    static std::string trim(const std::string &s)
    {
        static const std::string set{c...};
        const auto a = s.find_first_not_of(set);
        return a == std::string::npos ? "" : s.substr(a, s.find_last_not_of(set) - a + 1);
    }
};
}  // namespace trim_policy

template <class Delimiter, class Quote, class Header, class Trim>
class Reader
{
public:
    struct Cell
    {
        std::string text;
        template <class C>
        void read_value(C &r) const { r = text; }
    };
    using Row = std::vector<Cell>;

    bool mmap(const std::string &path)
    {
        std::ifstream f(path);
        if (!f) return false;
        for (std::string line; std::getline(f, line);) rows_.push_back(split(line));
        if (Header::value && !rows_.empty())
        {
            header_ = rows_.front();
            rows_.erase(rows_.begin());
        }
        return true;
    }
    Row header() const { return header_; }
    auto begin() const { return rows_.begin(); }
    auto end() const { return rows_.end(); }

private:
    static Row split(const std::string &line)
    {
        Row r;
        std::string cell;
        bool quoted = false;
        for (char x : line)
        {
            if (x == Quote::value) quoted = !quoted;
            if (x == Delimiter::value && !quoted)
            {
                r.push_back({Trim::trim(cell)});
                cell.clear();
            }
            else cell += x;
        }
        r.push_back({Trim::trim(cell)});
        return r;
    }
    Row header_;
    std::vector<Row> rows_;
};
}  // namespace csv2

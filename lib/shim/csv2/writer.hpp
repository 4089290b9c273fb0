// Stand-in for the part of csv2 that the repository uses (the library is not installed here).
#pragma once

#include "reader.hpp"

namespace csv2
{
template <class Delimiter>
class Writer
{
public:
    template <class Stream>
    explicit Writer(Stream &s) : out_(s) {}
    template <class Row>
    void write_row(const Row &row)
    {
        bool first = true;
        for (auto &cell : row)
        {
            if (!first) out_ << Delimiter::value;
            first = false;
            out_ << cell;
        }
        out_ << '\n';
    }
    template <class Rows>
    void write_rows(const Rows &rows)
    {
        for (auto &r : rows) write_row(r);
    }

private:
    std::ostream &out_;
};
}  // namespace csv2

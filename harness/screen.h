// A terminal of unlimited width: what a user sees of a stream of output.
#ifndef SCREEN_H
#define SCREEN_H

#include <string>
#include <vector>

struct Screen
{
    std::vector<std::string> rows{""};
    std::size_t row = 0, col = 0;
    std::string odd; // output the terminal does not understand
    std::size_t clears = 0;
    std::size_t colours = 0;

    void write(const std::string& t)
    {
        pending += t;
        std::size_t i = 0;
        while (i < pending.size())
        {
            const char c = pending[i];
            if (c == '\033')
            {
                // a control sequence: parameters, then a letter
                auto j = i + 1;
                if (j == pending.size()) break;
                if (pending[j] != '[') { odd += pending.substr(i, 2); i += 2; continue; }
                ++j;
                while (j < pending.size() && (isdigit(static_cast<unsigned char>(pending[j])) || pending[j] == ';')) ++j;
                if (j == pending.size()) break;
                const auto par = pending.substr(i + 2, j - i - 2);
                if (pending[j] == 'H' && par.empty()) { row = 0; col = 0; }
                else if (pending[j] == 'J' && par.empty())
                {
                    rows.resize(row + 1);
                    if (rows[row].size() > col) rows[row].resize(col);
                    ++clears;
                }
                else if (pending[j] == 'm') ++colours;
                else odd += pending.substr(i, j + 1 - i);
                i = j + 1;
                continue;
            }
            ++i;
            if (c == '\b') { if (col > 0) --col; else odd += c; }
            else if (c == '\r') col = 0;
            else if (c == '\n')
            {
                ++row;
                col = 0;
                if (row == rows.size()) rows.emplace_back();
            }
            else
            {
                auto& r = rows[row];
                if (r.size() < col + 1) r.resize(col + 1, ' ');
                r[col++] = c;
            }
        }
        pending.erase(0, i);
    }
    const std::string& line() const { return rows[row]; }

private:
    std::string pending;
};

inline std::string trimEnd(std::string t)
{
    while (!t.empty() && t.back() == ' ') t.pop_back();
    return t;
}

#endif

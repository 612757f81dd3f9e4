// Declaration-only stand-in for csv-parser (not installed here): lets the static
// analysis type-check the sources of /repo that include it. Nothing is ever run.
#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
#include <array>
#include <deque>
#include <list>
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <cmath>
#include <cstdint>
#include <algorithm>
#include <functional>
#include <iterator>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <optional>
#include <thread>
#include <mutex>
#include <type_traits>
namespace csv {
class CSVField { public: template<typename T = std::string> T get() const; };
class CSVFormat {
public:
    CSVFormat &no_header(); CSVFormat &delimiter(char); CSVFormat &delimiter(const std::vector<char> &);
    CSVFormat &quote(char); CSVFormat &quote(bool); CSVFormat &header_row(int); CSVFormat &trim(const std::vector<char> &);
};
class CSVRow {
public:
    CSVField operator[](std::size_t) const; CSVField operator[](const std::string &) const;
    std::vector<std::string> get_col_names() const; std::size_t size() const; bool empty() const;
};
class CSVReader {
public:
    CSVReader(std::string_view filename, CSVFormat format);
    std::vector<std::string> get_col_names() const;
    struct iterator {
        using value_type = CSVRow; using difference_type = std::ptrdiff_t; using pointer = CSVRow *;
        using reference = CSVRow &; using iterator_category = std::input_iterator_tag;
        reference operator*() const; pointer operator->() const;
        iterator &operator++(); iterator operator++(int);
        bool operator==(const iterator &) const noexcept; bool operator!=(const iterator &) const noexcept;
    };
    iterator begin(); iterator end() const noexcept;
};
template<class OutputStream, char Delim, char Quote, bool Flush>
class DelimWriter {
public:
    DelimWriter(OutputStream &, bool quote_minimal = true);
    template<typename T> DelimWriter &operator<<(const T &);
};
}

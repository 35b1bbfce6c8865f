// The types, in parts that compile in parallel.
#include "types.hpp"

namespace types
{
using std::string;
#if PART == 0
TYPE(bool)
TYPE(int)
TYPE(unsigned)
TYPE(long)
TYPE(unsigned long)
TYPE(long long)
TYPE(unsigned long long)
TYPE(float)
TYPE(double)
TYPE(long double)
TYPE(string)
TYPE(std::string_view)
TYPE(std::filesystem::path)
TYPE(std::nullptr_t)
TYPE(std::monostate)
#elif PART == 1
TYPE(Color)
TYPE(Small)
TYPE(Plain)
TYPE(json::value)
TYPE(json::array)
TYPE(json::object)
TYPE(Point)
TYPE(Foreign)
TYPE(std::optional<int>)
TYPE(std::optional<string>)
TYPE(std::shared_ptr<double>)
TYPE(std::unique_ptr<string>)
#elif PART == 2
TYPE(std::vector<int>)
TYPE(std::vector<string>)
TYPE(std::vector<double>)
TYPE(std::deque<unsigned>)
TYPE(std::list<string>)
TYPE(std::set<string>)
TYPE(std::multiset<int>)
TYPE(std::unordered_set<long>)
TYPE(std::array<int, 3>)
TYPE(std::array<string, 1>)
TYPE(std::vector<bool>)
TYPE(std::vector<Color>)
#elif PART == 3
TYPE(std::tuple<int, string, bool>)
TYPE(std::tuple<std::vector<int>>)
TYPE(std::tuple<json::value>)
TYPE(std::vector<std::tuple<string>>)
TYPE(std::pair<string, double>)
TYPE(std::map<string, int>)
TYPE(std::unordered_map<string, string>)
TYPE(std::map<string, std::vector<std::optional<int>>>)
TYPE(std::variant<int, string, bool>)
TYPE(std::variant<std::monostate, std::vector<int>, std::map<string, int>>)
TYPE_IN(std::variant<int, long long, double, string>)
TYPE_IN(std::variant<std::vector<unsigned>, std::vector<double>, std::vector<json::value>>)
#elif PART == 4
TYPE(std::vector<std::vector<string>>)
TYPE(std::map<string, std::map<string, double>>)
TYPE(std::vector<std::pair<int, std::optional<string>>>)
TYPE(std::optional<std::vector<int>>)
TYPE(std::shared_ptr<std::map<string, bool>>)
TYPE(std::vector<std::unique_ptr<int>>)
TYPE(std::map<string, std::unique_ptr<string>>)
TYPE(std::vector<std::shared_ptr<string>>)
TYPE(std::vector<json::object>)
TYPE(std::map<string, json::value>)
TYPE(std::vector<json::value>)
#elif PART == 5
TYPE(std::vector<Point>)
TYPE(std::map<string, Point>)
TYPE(std::optional<Point>)
TYPE(std::tuple<Point, Foreign, Color>)
TYPE(std::vector<Foreign>)
TYPE(std::variant<Point, std::vector<Point>, string>)
TYPE(std::array<std::tuple<int, bool>, 2>)
TYPE(std::vector<std::variant<bool, string, std::vector<int>>>)
TYPE(std::map<string, std::array<float, 2>>)
TYPE(std::set<std::vector<int>>)
#elif PART == 6
TYPE(std::array<int, 0>)
TYPE(std::array<int, 2>)
TYPE(std::array<string, 17>)
TYPE(std::tuple<>)
TYPE(std::tuple<std::optional<int>, std::optional<int>>)
TYPE(std::tuple<string, string, string, std::vector<string>, bool, int, unsigned long>)
TYPE(std::pair<std::optional<string>, std::vector<int>>)
TYPE(std::pair<int, int>)
TYPE(std::unordered_multiset<int>)
TYPE(std::set<int, std::greater<int>>)
TYPE(std::map<string, string, std::greater<string>>)
TYPE(std::deque<std::vector<bool>>)
TYPE(std::list<Color>)
TYPE(std::vector<std::filesystem::path>)
TYPE(std::vector<float>)
TYPE(std::vector<long double>)
TYPE(std::shared_ptr<std::tuple<int>>)
TYPE(std::pair<std::shared_ptr<std::tuple<json::value>>, std::optional<std::tuple<string>>>)
#elif PART == 7
TYPE(Mover)
TYPE(std::vector<Mover>)
TYPE(std::map<string, Mover>)
TYPE(std::tuple<Mover, std::optional<Mover>>)
TYPE(std::unique_ptr<Mover>)
TYPE(std::variant<Mover, Foreign, Level>)
TYPE(Pair)
TYPE(std::array<Point, 2>)
TYPE(Level)
TYPE(std::map<string, Level>)
TYPE(std::optional<std::variant<int, std::vector<string>>>)
TYPE(std::shared_ptr<std::vector<std::shared_ptr<int>>>)
TYPE(std::set<std::pair<string, int>>)
TYPE(std::vector<std::map<string, std::pair<int, std::optional<bool>>>>)
#endif
}

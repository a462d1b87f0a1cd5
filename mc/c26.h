#pragma once
#include <map>
#include <string>
#include <vector>
struct RCall { char kind; std::vector<double> data; int dim[3]; std::vector<double> hier; double th; };
struct RResult { std::map<std::string, std::vector<double>> parts, quals; double popt, auc; bool unchanged; };
RResult callR(const RCall &c);

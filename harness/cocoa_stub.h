// Stand-ins for the optional CoCoA backend, which is not installed: lets headers that mention it compile.
#pragma once
#include <iostream>
#include <utility>
#include <vector>
namespace CoCoA {
struct ErrorInfo {};
inline std::ostream& operator<<(std::ostream& o, const ErrorInfo&) { return o; }
inline const char* context(const ErrorInfo&) { return ""; }
}
namespace carl {
template<class P>
class CoCoAAdaptor {
public:
	template<class... A>
	CoCoAAdaptor(A&&...) {}
	template<class... A>
	std::vector<P> GBasis(A&&...) const { return {}; }
};
template<typename R, typename P>
struct LazardEvaluation {
	LazardEvaluation(const P&) {}
	template<class... A>
	auto substitute(A&&...) { return std::make_pair(false, R()); }
	const P& getLiftingPoly() const { static P p; return p; }
};
template<typename R, typename P>
struct FieldExtensions {
	template<class... A>
	std::pair<bool, P> extend(A&&...) { return {false, P()}; }
};
}

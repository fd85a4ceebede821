// Vocabulary of the scenario functions.  None of these functions exists: the
// scenarios are parsed and analysed together with the repository's sources,
// and are never linked or executed.
#ifndef VERIF_DRIVERS_VERIF_H_
#define VERIF_DRIVERS_VERIF_H_

namespace verif {

// An arbitrary value of type T (every value is possible).
template <typename T>
T Any(const char* name);
// An arbitrary object of type T.
template <typename T>
T& AnyRef(const char* name);
// The stated condition holds in every state that reaches this point.
void Require(bool condition, const char* label);
// This point is not reachable.
void Unreachable(const char* label);
// a and b are the same value.
template <typename A, typename B>
bool Same(const A& a, const B& b);
// The value of b occurs in the computation of a.
template <typename A, typename B>
bool Mentions(const A& a, const B& b);
// All of a comes from one call to the cryptographic random generator.
template <typename A>
bool Random(const A& a);
// Only executions in which the condition holds are considered from here on.
void Assume(bool condition);
// The value of an unspecified (but fixed) function of the arguments.
template <typename T, typename... A>
T Fn(const char* name, const A&... a);
// a + b or a - b modulo n, over the integers.
template <typename T>
T SumMod(T n, T a, T b);
template <typename T>
T DifferenceMod(T n, T a, T b);
// A value that no other call returns.
template <typename T>
T Fresh(const char* name);

}  // namespace verif

#endif

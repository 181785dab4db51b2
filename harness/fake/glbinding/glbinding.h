// Stand-in for glbinding: see gl33core/gl.h
#pragma once
namespace glbinding
{
typedef void (*ProcAddress)();
template <class F>
void initialize(F&&, bool = true)
{
}
} // namespace glbinding

// Problem objects on the library's own topologies, geometries and node descriptors.
#pragma once
#include "core/mock.hxx"

namespace mock
{
constexpr int first_real_shape = 5;
constexpr int n_real_shapes = 5;
inline std::string real_dir;  // where domain files are written
const Shape& any_shape(int shape);
bool real_available();
bool reads_file(int shape);
std::unique_ptr<IProblem> make_real(int kind, int shape, uint64_t seed, unsigned level, long coef, int ctor);
Level real_level(int shape, uint64_t seed, unsigned level);
inline std::unique_ptr<IProblem> make_any(int kind, int shape, uint64_t seed, unsigned level, long coef, int ctor)
{
  return shape >= first_real_shape ? make_real(kind, shape, seed, level, coef, ctor) : make(kind, shape, seed, level, coef, ctor);
}
inline std::unique_ptr<Model> make_model(int kind, int shape, uint64_t seed, unsigned level, long coef)
{
  if (shape >= first_real_shape)
    return std::make_unique<Model>(kind, any_shape(shape), seed, level, coef, real_level, shape);
  return std::make_unique<Model>(kind, any_shape(shape), seed, level, coef);
}
}  // namespace mock

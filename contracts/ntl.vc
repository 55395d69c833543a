@source latte_ntl.cpp
@fn InnerProductModulo(ZZ &, const vec_ZZ &, const vec_ZZ &, const ZZ &) as ntl_ipmod
@requires a@.len() == b@.len(), module.v() != 0
@ensures result.v() == frem(dot(a@, b@, a@.len()), module.v())
@end

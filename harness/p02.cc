// C interface over wrenfold's exact-integer layer, for generated-input checks (see checks/p02_*.py).
#include <cmath>
#include <cstdint>
#include <cstring>

#include "wf/expressions/numeric_expressions.h"
#include "wf/integer_utils.h"
#include "wf/utility/checked_int.h"

using wf::checked_int;

extern "C" {
// op: 0 + 1 - 2 * 3 / 4 % 5 neg(a) 6 abs(a) 7 gcd  8..11 in-place + - * /. Returns 0 ok, 1 raised.
int chk_op(int op, int64_t a, int64_t b, int64_t* out) {
  try {
    checked_int x = a, y = b;
    switch (op) {
      case 0: x = x + y; break;
      case 1: x = x - y; break;
      case 2: x = x * y; break;
      case 3: x = x / y; break;
      case 4: x = x % y; break;
      case 5: x = -x; break;
      case 6: x = abs(x); break;
      case 7: x = gcd(x, y); break;
      case 8: x += y; break;
      case 9: x -= y; break;
      case 10: x *= y; break;
      case 11: x /= y; break;
      default: return 2;
    }
    *out = x.value();
    return 0;
  } catch (const wf::exception_base&) {
    return 1;
  }
}

int chk_pow(int64_t b, uint64_t e, int64_t* out) {
  try {
    *out = wf::integer_power(checked_int{b}, e).value();
    return 0;
  } catch (const wf::exception_base&) {
    return 1;
  }
}

// Fills (base, exponent) pairs; returns their number or -1 when an exception is raised.
int chk_factors(int64_t n, int64_t* out, int cap) {
  try {
    const auto f = wf::compute_prime_factors(checked_int{n});
    int k = 0;
    for (const auto& p : f) {
      if (k + 1 >= cap) return -2;
      out[k++] = p.base.value();
      out[k++] = p.exponent.value();
    }
    return k / 2;
  } catch (const wf::exception_base&) {
    return -1;
  }
}

// Order of i relative to f: -1, 0, 1; 2 for unordered.
int chk_cmp_int_float(int64_t i, double f) {
  const auto r = wf::compare_int_float(i, f);
  if (!r.has_value()) return 2;
  return r == wf::relative_order::less_than ? -1 : (r == wf::relative_order::equal ? 0 : 1);
}

// op: 0 + 1 - 2 * 3 / 4 % 5 mod_pi(a) 6 normalized(a): integer in out[2]
int chk_rat(int op, int64_t an, int64_t ad, int64_t bn, int64_t bd, int64_t* out) {
  try {
    wf::rational_constant a{an, ad}, b{bn, bd};
    switch (op) {
      case 0: a = a + b; break;
      case 1: a = a - b; break;
      case 2: a = a * b; break;
      case 3: a = a / b; break;
      case 4: a = a % b; break;
      case 5: a = wf::mod_pi_rational(a); break;
      case 6: {
        const auto [i, r] = a.normalized();
        out[2] = i.value().value();
        a = r;
        break;
      }
      default: return 2;
    }
    out[0] = a.numerator().value();
    out[1] = a.denominator().value();
    return 0;
  } catch (const wf::exception_base&) {
    return 1;
  }
}

// bit0: a<b, bit1: a>b, bit2: a==b, bit3: order less, bit4: order equal, bit5: order greater,
// bit6: a is proper; 128: raised from < or > (overflow)
int chk_rat_cmp(int64_t an, int64_t ad, int64_t bn, int64_t bd) {
  const wf::rational_constant a{an, ad}, b{bn, bd};
  int r = 0;
  try {
    r |= (a < b) ? 1 : 0;
    r |= (a > b) ? 2 : 0;
  } catch (const wf::exception_base&) {
    r = 128;
  }
  r |= (a == b) ? 4 : 0;
  const auto o = wf::order_struct<wf::rational_constant>{}(a, b);
  r |= o == wf::relative_order::less_than ? 8 : (o == wf::relative_order::equal ? 16 : 32);
  r |= a.is_proper() ? 64 : 0;
  return r;
}
}

"""writes properties.jsonl (kept as a script so that the shared parts stay in step)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs, 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

T = 'The tests compare a few hundred tabulated points and some random ones with stored reference values; a wrong coefficient, threshold or branch that matters only on a small sub-interval or in one quadrant lies between them. '
prop('C01', 'Real dilogarithm, trilogarithm and Li4 are accurate on the whole real line (C++)',
     'For every finite real x the C++ functions Li2 (float, double, long double), Li3 and Li4 (double) return the real part of the polylogarithm Li_n(x). The error is at most tol*max(|Li_n(x)|, min(1,|x|)) with tol = 5e-6 (float), 1e-13 (double), 1e-16 (long double). Order, argument transformation and rational approximation must therefore be right on every sub-interval, including x<-1, [-1,0], (0,1/2), [1/2,1), [1,2) and x>2.',
     ['inputs'], 'every real x with |x| between 2^-996 (float 2^-100) and e^690 (float e^69), and 0', T + 'The quantifier is over a continuum of arguments.',
     ['src/cpp/Li2.cpp', 'src/cpp/Li3.cpp', 'src/cpp/Li4.cpp'],
     [('argument transformation to [0,1/2] and rational minimax approximation', 'src/cpp/Li2.cpp Li2(float/double/long double)'), ('region dispatch for the real trilogarithm', 'src/cpp/Li3.cpp'), ('region dispatch for the real Li4', 'src/cpp/Li4.cpp')], ['return value'])
prop('C02', 'Clausen functions Cl1..Cl6 are accurate for all real angles (C++)',
     'For every real x the C++ functions Cl1..Cl6 (double) and Cl2..Cl6 (long double) return the standard Clausen function of that order (sine series for even, cosine series for odd order). The error is at most tol*max(1,|x|)*max(|Cl_n(x)|, min(1,|x|)) with tol = 1e-13 (double), 1e-15 (long double); near the poles of Cl1 at multiples of 2*pi it may grow like the inverse distance. However large a finite angle is, the Clausen functions of order n >= 2 stay finite and inside their range.',
     ['inputs'], 'every real x with |x| <= 64 (Cl1: at least 1e-6 away from non-zero multiples of 2 pi)', T + 'Sign, range reduction to [0,pi] and the switch between the two approximation intervals hold for every angle or not at all.',
     ['src/cpp/Cl1.cpp', 'src/cpp/Cl2.cpp', 'src/cpp/Cl3.cpp', 'src/cpp/Cl4.cpp', 'src/cpp/Cl5.cpp', 'src/cpp/Cl6.cpp'],
     [('range reduction of the angle to [0,pi] with sign', 'src/cpp/Cl2.cpp .. Cl6.cpp'), ('two approximation intervals', 'src/cpp/Cl2.cpp .. Cl6.cpp')], ['return value'])
prop('C03', 'Complex Li2..Li6 are accurate in the whole plane in float and double (C++)',
     'For every complex z the C++ functions Li2 (complex float and double) and Li3..Li6 (complex double) return the polylogarithm Li_n(z) on its principal branch. Real and imaginary part are each within tol*max(|Li_n(z)|, min(1,|z|)) with tol = 5e-6 (float), 1e-13 (double). This holds inside, outside and close to the unit circle, close to z=1, and immediately above and below the real axis.',
     ['inputs'], 'every complex z with |z| between 2^-996 (float 2^-100) and e^690 (float e^69), imaginary part +0, -0 or of magnitude at least 2^-996 (2^-100)', T + 'The domain is two-dimensional and split into regions by magnitude, by distance from 1 and by quadrant.',
     ['src/cpp/Li2.cpp', 'src/cpp/Li3.cpp', 'src/cpp/Li4.cpp', 'src/cpp/Li5.cpp', 'src/cpp/Li6.cpp', 'src/cpp/log.hpp'],
     [('region split (log series near |log z| < 1, inversion for |z| > 1, series in -log(1-z))', 'src/cpp/Li3.cpp .. Li6.cpp'), ('complex logarithms', 'src/cpp/log.hpp'), ('polynomial evaluation', 'src/cpp/horner.hpp')], ['return value'])
prop('C04', 'Complex Li2..Li6 are accurate in the whole plane in long double (C++)',
     'For every complex z the C++ long double functions Li2..Li6 return the polylogarithm Li_n(z) on its principal branch, with real and imaginary part each within 1e-16*max(|Li_n(z)|, min(1,|z|)). The longer series used in this precision must therefore have every coefficient right.',
     ['inputs'], 'every complex z with |z| between 2^-996 and e^690, imaginary part +0, -0 or of magnitude at least 2^-996', T + 'The long double code is separate from the double code and has its own coefficients, many of which only matter at the edge of a region.',
     ['src/cpp/Li2.cpp', 'src/cpp/Li3.cpp', 'src/cpp/Li4.cpp', 'src/cpp/Li5.cpp', 'src/cpp/Li6.cpp', 'src/cpp/log.hpp'],
     [('coefficient tables and region split', 'src/cpp/Li3.cpp .. Li6.cpp (long double overloads)'), ('complex logarithms', 'src/cpp/log.hpp')], ['return value'])
prop('C05', 'The general Li(n,z) is accurate for positive, zero and negative order',
     'For every integer order n and complex z the general polylogarithm Li(n,z) returns Li_n(z) on its principal branch. The error is at most 1e-13*max(|Li_n(z)|, min(1,|z|))*F, where F is 1 for n >= 0, a conditioning factor |n|!*max(1,|z|)/|1-z| for orders n < 0 (and n = 0, without the factorial), and grows like log|z|/32 for very large |z|.',
     ['inputs'], 'orders n from -10 to 170 and complex z; see DESIGN.md for the (n, region) pairs decided in each tier', T + 'The order is a run-time integer that selects loops, tables and series, so each order is different code behaviour.',
     ['src/cpp/Li.cpp', 'src/cpp/eta.cpp', 'src/cpp/zeta.cpp', 'src/cpp/harmonic.cpp', 'src/cpp/factorial.cpp', 'src/cpp/log.hpp'],
     [('region dispatch', 'src/cpp/Li.cpp Li'), ('naive sum, series around unity, inversion with remainder', 'src/cpp/Li.cpp')], ['return value'])
prop('C06', 'The general Clausen functions Cl(n,x) and Sl(n,x) are accurate',
     'For every order n >= 1 and real x the general functions Cl(n,x) and Sl(n,x) return the standard (Cl) and complementary (Sl) Clausen function: sin series for even-order Cl and odd-order Sl, cos series for odd-order Cl and even-order Sl. The error is at most 1e-13*max(1,|x|)*max(|value|, min(1,|x|)). However large a finite angle is, the Clausen functions of order n >= 2 stay finite and inside their range.',
     ['inputs'], 'orders 1..40 (see DESIGN.md for the list decided in each tier), |x| <= 32', T + 'The order is a run-time integer that switches between direct sums, table driven expansions and Bernoulli polynomials.',
     ['src/cpp/Cl.cpp', 'src/cpp/Sl.cpp'],
     [('expansion for low orders and direct sum for high orders', 'src/cpp/Cl.cpp'), ('Bernoulli polynomials for low orders and direct sum for high orders', 'src/cpp/Sl.cpp')], ['return value'])
prop('C07', 'zeta, eta, 1/n! and harmonic numbers are right for every 64-bit integer',
     'For every 64-bit integer n the helper functions return zeta(n), -eta(n) (the alternating zeta function), 1/n! and the harmonic number H_n with relative error at most 1e-14. Where the value is not representable they return the limiting value: +infinity at the pole zeta(1), an infinity of the right sign where zeta(n) overflows for negative odd n, 0 where 1/n! underflows; 1/n! is NaN for negative n and H_n is NaN for n <= 0, and otherwise no NaN is returned.',
     ['inputs'], 'every 64-bit signed integer n', 'The tests look at a handful of small orders; table boundaries, the even/odd split at large negative orders and arguments near the limits of the integer type are never reached.',
     ['src/cpp/zeta.cpp', 'src/cpp/eta.cpp', 'src/cpp/factorial.cpp', 'src/cpp/harmonic.cpp'],
     [('tables for small |n|', 'src/cpp/zeta.cpp, eta.cpp, factorial.cpp, harmonic.cpp'), ('asymptotic forms and saturation outside the tables', 'same files')], ['return value'])
prop('C08', 'The C library is accurate in float and double',
     'For every argument the C functions li2f, li2, li3, li4, cl2..cl6, cli2f and cli2..cli6 return the function value: polylogarithm (real part for real argument) or Clausen function. The error is bounded as for the C++ library: tol*max(|value|, min(1,|z|)) per component with tol = 5e-6 (float) or 1e-13 (double), for Clausen functions times max(1,|x|). However large a finite angle is, the Clausen functions of order n >= 2 stay finite and inside their range.',
     ['inputs'], 'as for the C++ library: |z| up to e^690 (float e^69), |x| <= 64 for Clausen functions', T + 'The C sources are a separate implementation with their own coefficients and complex logarithm.',
     ['src/c/Li2.c', 'src/c/Li3.c', 'src/c/Li4.c', 'src/c/Li5.c', 'src/c/Li6.c', 'src/c/Cl2.c', 'src/c/Cl3.c', 'src/c/Cl4.c', 'src/c/Cl5.c', 'src/c/Cl6.c', 'src/c/log.c'],
     [('region split and series', 'src/c/Li*.c'), ('range reduction', 'src/c/Cl*.c'), ('complex log and log1p', 'src/c/log.c')], ['return value'])
prop('C09', 'The C library is accurate in long double',
     'For every argument the C functions li2l, cl2l..cl6l and cli2l..cli6l return the function value with error at most 1e-16*max(|value|, min(1,|z|)) per component (Clausen functions: 1e-15*max(1,|x|)). However large a finite angle is, the Clausen functions of order n >= 2 stay finite and inside their range.',
     ['inputs'], 'as for the C++ library: |z| up to e^690, |x| <= 64 for Clausen functions', T + 'The long double C sources are a separate implementation with their own coefficients.',
     ['src/c/Li2.c', 'src/c/Li3.c', 'src/c/Li4.c', 'src/c/Li5.c', 'src/c/Li6.c', 'src/c/Cl2.c', 'src/c/Cl3.c', 'src/c/Cl4.c', 'src/c/Cl5.c', 'src/c/Cl6.c', 'src/c/log.c'],
     [('coefficient tables and region split', 'src/c/Li*.c, src/c/Cl*.c'), ('complex log and log1p', 'src/c/log.c')], ['return value'])
prop('C10', 'The Fortran library is accurate',
     'For every argument the Fortran functions dli2, dli3, dli4, dcl2..dcl6 and cdli2..cdli6 return the function value with error at most 1e-13*max(|value|, min(1,|z|)) per component (Clausen functions: times max(1,|x|)). However large a finite angle is, the Clausen functions of order n >= 2 stay finite and inside their range.',
     ['inputs'], 'as for the C++ library: |z| up to e^690, |x| <= 64 for Clausen functions', T + 'The Fortran sources are a separate implementation with their own coefficients and helper functions.',
     ['src/fortran/Li2.f90', 'src/fortran/Li3.f90', 'src/fortran/Li4.f90', 'src/fortran/Li5.f90', 'src/fortran/Li6.f90', 'src/fortran/Cl2.f90', 'src/fortran/Cl3.f90', 'src/fortran/Cl4.f90', 'src/fortran/Cl5.f90', 'src/fortran/Cl6.f90'],
     [('region split and series', 'src/fortran/Li*.f90'), ('range reduction', 'src/fortran/Cl*.f90'), ('complex log helpers', 'src/fortran/*.f90')], ['function result'])
prop('C11', 'Clausen functions have exact parity',
     'For every angle x and every order n the Clausen functions (C++ Cl1..Cl6, Cl(n,x), Sl(n,x), C, Fortran) have exact parity: sine-type functions (even-order Cl, odd-order Sl) satisfy f(-x) = -f(x) and cosine-type functions (odd-order Cl, even-order Sl) satisfy f(-x) = f(x), bit for bit. A sine-type function vanishes at x = 0.',
     ['inputs'], 'every floating-point x (finite, infinite; NaN gives NaN), every order, every precision and language', 'Tests compare f(x) and f(-x) at sampled angles with a tolerance; exact equality for every bit pattern and order is out of reach of sampling.',
     ['src/cpp/Cl.cpp', 'src/cpp/Sl.cpp', 'src/cpp/Cl1.cpp', 'src/cpp/Cl2.cpp', 'src/cpp/Cl3.cpp', 'src/cpp/Cl4.cpp', 'src/cpp/Cl5.cpp', 'src/cpp/Cl6.cpp', 'src/c/Cl2.c', 'src/c/Cl3.c', 'src/c/Cl4.c', 'src/c/Cl5.c', 'src/c/Cl6.c', 'src/fortran/Cl2.f90'],
     [('sign handling before range reduction', 'all Clausen sources')], ['return value'])
prop('C12', 'Complex polylogarithms are conjugation symmetric off the branch cut',
     'For every complex z that is not on the branch cut (real z > 1), Li_n of the complex conjugate of z equals the complex conjugate of Li_n(z) in every language and precision: the real parts agree and the imaginary parts differ only in sign, bit for bit. A real z <= 1 gives a real result: an exactly zero imaginary part for Li2..Li6 and Li(n,z) with -1 <= n <= 6 (for other orders it vanishes up to rounding).',
     ['inputs'], 'every complex z off the cut, every order and precision; general order n in a bounded range', 'Tests use sampled points with a tolerance; symmetric treatment of the two half planes must hold for all of them.',
     ['src/cpp/Li2.cpp', 'src/cpp/Li3.cpp', 'src/cpp/Li4.cpp', 'src/cpp/Li5.cpp', 'src/cpp/Li6.cpp', 'src/cpp/Li.cpp', 'src/cpp/log.hpp', 'src/c/Li2.c', 'src/c/Li3.c', 'src/c/Li4.c', 'src/c/Li5.c', 'src/c/Li6.c', 'src/c/log.c', 'src/fortran/Li2.f90', 'src/fortran/Li3.f90', 'src/fortran/Li4.f90', 'src/fortran/Li5.f90', 'src/fortran/Li6.f90'],
     [('phase of the complex logarithm', 'src/cpp/log.hpp, src/c/log.c'), ('sign of the imaginary part in the inversion formulas', 'Li3..Li6 sources')], ['return value'])
prop('C13', 'Special points have their documented exact values',
     'The general Li(n,z) returns z for z = 0, (infinite, infinite) for z = 1 with n <= 0, zeta(n) for z = 1 with n >= 1, -eta(n) for z = -1, a NaN real part for a NaN argument and real part minus infinity for an infinite argument, for every 64-bit order n. Cl(n,x) and Sl(n,x) return NaN for every order n < 1, and the fixed-order functions return their closed-form values at 0, 1 and -1.',
     ['inputs'], 'every 64-bit order n at each special point', 'The order is a 64-bit integer; tests check a few orders only, and special points interact with parity and sign of the order.',
     ['src/cpp/Li.cpp', 'src/cpp/Cl.cpp', 'src/cpp/Sl.cpp', 'src/cpp/Li2.cpp', 'src/cpp/Li3.cpp', 'src/cpp/Li4.cpp', 'src/cpp/Li5.cpp', 'src/cpp/Li6.cpp'],
     [('early returns for special arguments', 'src/cpp/Li.cpp, Cl.cpp, Sl.cpp and LiN sources')], ['return value'])
prop('C14', 'On the real axis the complex functions take the documented branch',
     'For real z > 1 (imaginary part +0 or -0) the complex polylogarithms Li2..Li6 in every language return the value below the cut, whose imaginary part is -pi*log(z)^(n-1)/(n-1)!, so both signs of zero give the same branch. For real z <= 1 the result is real; and wherever a function of a real argument exists (Li2, Li3, Li4), it equals the real part of the complex function to within the accuracy tolerance.',
     ['inputs'], 'every real z (finite, |z| from 2^-996 to e^690; float 2^-100 to e^69) with either sign of the zero imaginary part', 'Tests look at a few points on the cut and mostly at one sign of zero; both signs matter on the whole half line.',
     ['src/cpp/Li2.cpp', 'src/cpp/Li3.cpp', 'src/cpp/Li4.cpp', 'src/cpp/Li5.cpp', 'src/cpp/Li6.cpp', 'src/cpp/log.hpp', 'src/c/Li2.c', 'src/c/Li3.c', 'src/c/Li4.c', 'src/c/Li5.c', 'src/c/Li6.c', 'src/c/log.c', 'src/fortran/Li2.f90', 'src/fortran/Li3.f90', 'src/fortran/Li4.f90', 'src/fortran/Li5.f90', 'src/fortran/Li6.f90'],
     [('logarithm that treats -0 as +0', 'src/cpp/log.hpp pos_log, src/c/log.c'), ('special case for real arguments', 'Li2..Li6 sources')], ['return value'])
prop('C15', 'General-order functions agree with the fixed-order ones',
     'Li(n,z) for n = 2..6 returns exactly the result of the fixed-order functions Li2..Li6 for every complex z that is not a special point, and Cl(n,x) for n = 1..6 returns exactly the result of Cl1..Cl6 for every x. Li(0,z), Li(1,z) and Li(-1,z) agree with z/(1-z), -log(1-z) and z/(1-z)^2.',
     ['inputs'], 'every complex double z and every double x, orders -1..6', 'Tests compare at sampled points; the dispatch has to be right for every argument and order.',
     ['src/cpp/Li.cpp', 'src/cpp/Cl.cpp'], [('dispatch on the order', 'src/cpp/Li.cpp Li, src/cpp/Cl.cpp Cl')], ['return value'])
prop('C16', 'No input triggers undefined behaviour or an out-of-bounds table access',
     'For every argument, including NaN, infinities, signed zeros and every order with |n| <= 2^62, no public function of the C++, C or Fortran library reads or writes outside its tables and local objects, overflows a signed integer, divides an integer by zero, or converts an unrepresentable floating-point value to an integer.',
     ['inputs'], 'all floating-point arguments; all 64-bit orders n with |n| <= 2^62', 'Tests run a few orders without sanitizers; table indices depend on the run-time order and loop counters.',
     ['src/cpp/Li.cpp', 'src/cpp/Cl.cpp', 'src/cpp/Sl.cpp', 'src/cpp/zeta.cpp', 'src/cpp/eta.cpp', 'src/cpp/harmonic.cpp', 'src/cpp/factorial.cpp', 'src/cpp/log.hpp', 'src/c/log.c'],
     [('range checks before table look-ups', 'src/cpp/zeta.cpp, eta.cpp, factorial.cpp, harmonic.cpp, Li.cpp, Cl.cpp, Sl.cpp'), ('fixed-size coefficient arrays', 'all sources')], ['process termination, sanitizer report'])
prop('C17', 'Functions are pure: no shared state, arguments are never modified',
     'Every public function is a pure function of its arguments: it writes no global or static object, so results never depend on the calls made before or concurrently, and calling it twice gives bit-identical results. Arguments passed by reference (C++, Fortran) are left unchanged for every input value.',
     ['inputs', 'histories'], 'all functions, all argument values, all call histories and thread interleavings', 'Tests call functions in one order in one thread and pass temporaries, so hidden state or a modified argument is not observed.',
     ['src/cpp/Li.cpp', 'src/cpp/Cl.cpp', 'src/cpp/Li2.cpp', 'src/c/Li2.c', 'src/fortran/Cl2.f90', 'src/fortran/Cl3.f90', 'src/fortran/Cl4.f90', 'src/fortran/Cl5.f90', 'src/fortran/Cl6.f90', 'src/fortran/Li4.f90'],
     [('read-only tables and local variables', 'all sources'), ('working copies of by-reference arguments', 'src/fortran/Cl*.f90, Li4.f90')], ['return value', 'argument cell after the call'])
prop('C18', 'Every call terminates after a bounded number of steps',
     'Every public function returns for every argument after a number of steps bounded independently of the argument: no NaN, infinity, zero, huge angle or huge order (|n| up to 2^62) makes a summation loop run forever or for a number of iterations that grows with the order.',
     ['inputs'], 'all floating-point arguments, all 64-bit orders n with |n| <= 2^62', 'A test only sees that the sampled calls return; a NaN-sensitive loop test or an order-dependent trip count needs a particular input.',
     ['src/cpp/Li.cpp', 'src/cpp/Cl.cpp', 'src/cpp/Sl.cpp', 'src/cpp/harmonic.cpp', 'src/cpp/log.hpp'],
     [('loop bounds and convergence tests', 'src/cpp/Li.cpp, Cl.cpp, Sl.cpp')], ['the call returns'])
prop('C19', 'Clausen functions stay accurate and in range for huge angles',
     'For every finite angle x, up to the largest finite number, the Clausen functions of order n >= 2 (C++ Cl2..Cl6, Cl(n,x) and Sl(n,x), C, Fortran; every precision) return a finite value that stays inside the range of the function: |f(x)| <= max|f| up to a relative 1e-9 (1.01495 for Cl_2, 1.02 for the other sine-type functions, zeta(n) for the cosine-type ones, pi/2 for Sl_1). They are periodic: f(x) equals f(x mod 2 pi) up to the change an angle error of a few units in the last place of x makes.',
     ['inputs'], 'every finite x (finite bit patterns of double and long double), every 64-bit order n >= 2', 'Tests stay within a few periods; a range reduction that overflows an integer, loses all digits or leaves [0,2 pi] only shows for angles of 1e9 to 1e300.',
     ['src/cpp/Cl2.cpp', 'src/cpp/Cl3.cpp', 'src/cpp/Cl4.cpp', 'src/cpp/Cl5.cpp', 'src/cpp/Cl6.cpp', 'src/cpp/Cl.cpp', 'src/cpp/Sl.cpp', 'src/c/Cl2.c', 'src/c/Cl3.c', 'src/c/Cl4.c', 'src/c/Cl5.c', 'src/c/Cl6.c', 'src/fortran/Cl2.f90', 'src/fortran/Cl3.f90', 'src/fortran/Cl4.f90', 'src/fortran/Cl5.f90', 'src/fortran/Cl6.f90'],
     [('exact reduction of the angle modulo 2 pi', 'Cl2..Cl6 sources, src/cpp/Cl.cpp and Sl.cpp range_reduce')], ['return value'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')

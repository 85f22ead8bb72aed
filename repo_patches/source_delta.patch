From d55eb289e1fbcfcd0cbc7decbcee1eaccdccac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 01/25] fix: central convolution of an empty operand underflows
 its offset

ConvolutionLength(..., CONV_CENTRAL) is 0 for an empty operand, but the offset
was computed as min(size - 1), which wraps around and trips the assertion.
---
 include/dspbb/Math/Convolution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Convolution.hpp b/include/dspbb/Math/Convolution.hpp
index 359ced7..a646717 100644
--- a/include/dspbb/Math/Convolution.hpp
+++ b/include/dspbb/Math/Convolution.hpp
@@ -74,7 +74,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_same_
 auto Convolution(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = centralLength != 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	Convolution(out, u, v, offset, clearOut);
 }
 
@@ -100,7 +100,7 @@ auto Convolution(const SignalT& u, const SignalU& v, impl::ConvFull) {
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto Convolution(const SignalT& u, const SignalU& v, impl::ConvCentral) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = length != 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	return Convolution(u, v, offset, length);
 }
 
-- 
2.43.0


From 4bb12df8d0d1654b13f7d6c6351b29f6763aa15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 02/25] fix: Interval equality compares the upper bounds

operator== tested `lhs.last && rhs.last`, so [0,2) == [0,3) was true and [-1,0) == [-1,0) false.
---
 include/dspbb/Utility/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Interval.hpp b/include/dspbb/Utility/Interval.hpp
index 8a6cfdf..1bc2422 100644
--- a/include/dspbb/Utility/Interval.hpp
+++ b/include/dspbb/Utility/Interval.hpp
@@ -37,7 +37,7 @@ Interval<T>& operator-=(Interval<T>& lhs, T rhs) {
 
 template <class T>
 bool operator==(const Interval<T>& lhs, const Interval<T>& rhs) {
-	return lhs.first == rhs.first && lhs.last && rhs.last;
+	return lhs.first == rhs.first && lhs.last == rhs.last;
 }
 
 template <class T>
-- 
2.43.0


From 04b554b557b657c7e0136edd31f37bbc9205db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 03/25] fix: Rational times a negative integer has a positive
 denominator

The sign was applied to both parts, which made the denominator negative and tripped the constructor's assertion.
---
 include/dspbb/Math/Rational.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index b87a102..2e43b60 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -61,9 +61,8 @@ constexpr Rational<T> operator-(const Rational<T>& lhs, T rhs) noexcept {
 template <class T>
 constexpr Rational<T> operator*(const Rational<T>& lhs, T rhs) noexcept {
 	const auto simplification = std::gcd(rhs, lhs.Denominator());
-	const auto sign = rhs < 0 ? T(-1) : T(1);
-	return { sign * lhs.Numerator() * (rhs / simplification),
-			 sign * lhs.Denominator() / simplification };
+	return { lhs.Numerator() * (rhs / simplification),
+			 lhs.Denominator() / simplification };
 }
 template <class T>
 constexpr Rational<T> operator/(const Rational<T>& lhs, T rhs) noexcept {
-- 
2.43.0


From 5c27fe29259474c7f29311bf6cbc172c04d8399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 04/25] fix: floor and ceil of negative rationals

Integer division truncates towards zero: floor(-1/2) was 0 and ceil(-4/3) was 0.
---
 include/dspbb/Math/Rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index 2e43b60..b2af156 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -313,12 +313,12 @@ constexpr bool operator>=(S lhs, const Rational<T>& rhs) noexcept {
 
 template <class T>
 constexpr T ceil(const Rational<T>& rational) {
-	return (rational.Numerator() + rational.Denominator() - 1) / rational.Denominator();
+	return rational.Numerator() / rational.Denominator() + T(rational.Numerator() % rational.Denominator() > 0);
 }
 
 template <class T>
 constexpr T floor(const Rational<T>& rational) {
-	return rational.Numerator() / rational.Denominator();
+	return rational.Numerator() / rational.Denominator() - T(rational.Numerator() % rational.Denominator() < 0);
 }
 
 template <class T>
-- 
2.43.0


From d9d80545d223990cf9549b8d083bafd2e3b65177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 05/25] fix: plus_compensated<T> assigned to its const argument

The compensated call operator could not be instantiated for any T other than void.
---
 include/dspbb/Kernels/Functors.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dspbb/Kernels/Functors.hpp b/include/dspbb/Kernels/Functors.hpp
index 4eb3a05..ccd6190 100644
--- a/include/dspbb/Kernels/Functors.hpp
+++ b/include/dspbb/Kernels/Functors.hpp
@@ -40,8 +40,7 @@ struct plus_compensated : compensated_operator_tag {
 		const T y = item - carry;
 		const T t = sum + y;
 		carry = (t - sum) - y;
-		sum = t;
-		return sum;
+		return t;
 	}
 };
 
-- 
2.43.0


From c32fc61991629a61791f236c93587d79cc0dd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 06/25] fix: sawtooth and PWM waves are periodic for negative
 phase

modf keeps the sign of its argument, so for negative total phase the saw left [-1,1] and the pulse was always high.
---
 include/dspbb/Generators/Waveforms.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Generators/Waveforms.hpp b/include/dspbb/Generators/Waveforms.hpp
index 56c715f..c1d1903 100644
--- a/include/dspbb/Generators/Waveforms.hpp
+++ b/include/dspbb/Generators/Waveforms.hpp
@@ -4,6 +4,7 @@
 #include "../Utility/Numbers.hpp"
 #include "../Utility/TypeTraits.hpp"
 
+#include <cmath>
 #include <cstdint>
 #include <type_traits>
 
@@ -44,8 +45,8 @@ namespace impl {
 
 	inline double Sawtooth(double phase, double tilt) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double periods = phase / pi2;
+		const double unitPhase = periods - std::floor(periods);
 		const double length = unitPhase > tilt ? (1.0 - tilt) : tilt + std::numeric_limits<double>::denorm_min();
 		const double distance = std::abs(unitPhase - tilt);
 		const double value = 1.0 - distance / length;
@@ -54,8 +55,8 @@ namespace impl {
 
 	inline double Pwm(double phase, double fill) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double periods = phase / pi2;
+		const double unitPhase = periods - std::floor(periods);
 		return double(unitPhase < fill || fill >= 1.0);
 	}
 
-- 
2.43.0


From 3bdf6a89a3c5c92cd1726b52333d83fbbfeb3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 07/25] fix: FactoredPolynomial assignment returns *this

Both assignment operators flowed off the end, which is undefined behaviour.
---
 include/dspbb/Math/Polynomials.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index bdcc2ef..544e15f 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -173,6 +173,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(FactoredPolynomial&& rhs
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
 	rhs.m_real = {};
 	rhs.m_complex = {};
+	return *this;
 }
 
 template <class T>
@@ -180,6 +181,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(const FactoredPolynomial
 	m_mem = rhs.m_mem,
 	m_real = { m_mem.data(), rhs.m_real.size() },
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
+	return *this;
 }
 
 
-- 
2.43.0


From 6abfbf6fdd8dd3cd9a71285cef511f9c0ef5cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 08/25] fix: Interpolate writes every output sample

Samples where the filter phase meets no input (the tail of the full
interpolation, or phases without taps) kept the previous content of the output.
---
 include/dspbb/Filtering/Resample.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 8449a26..06f3d72 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -254,6 +254,10 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 			const auto value = DotProduct(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
+		else {
+			using R = typename signal_traits<std::decay_t<SignalR>>::type;
+			hrOutput[hrOutputIdx - hrOffset] = R(remove_complex_t<R>(0));
+		}
 	}
 
 	return impl::FindInterpolSuspensionPoint(hrOutputIdx, polyphase.size_original(), polyphase.num_phases());
-- 
2.43.0


From 15ca18d89121aef4d2588a5f48cfb3c1b828faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 09/25] fix: ShiftResponse writes the middle tap of odd filters

When the output is not the input, the middle tap kept its previous content (times two).
---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 7686214..87757cf 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -37,7 +37,7 @@ void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency
 	const auto offset = static_cast<U>(filter.size() / 2);
 	const U scale = pi_v<U> * normalizedFrequency;
 	const size_t size = filter.size();
-	for (size_t i = 0; i < size / 2; ++i) {
+	for (size_t i = 0; i < (size + 1) / 2; ++i) {
 		const U x = (U(i) - offset) * scale;
 		const U c = std::cos(x);
 		moved[i] = c * filter[i];
-- 
2.43.0


From f88ad3abd0761714d8768b458735e2bc409eed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 10/25] fix: even central moments above the fourth

The general formula d*|d|^(k-1) is only right for odd k; for even k samples below the mean were subtracted.
---
 include/dspbb/Math/Statistics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Statistics.hpp b/include/dspbb/Math/Statistics.hpp
index 503636e..1d40328 100644
--- a/include/dspbb/Math/Statistics.hpp
+++ b/include/dspbb/Math/Statistics.hpp
@@ -85,7 +85,8 @@ auto CentralMoment(const SignalT& signal, size_t k, U mean) {
 		using T = decltype(mean); // Must be a scalar.
 		using V = std::decay_t<decltype(a)>; // May be SIMD vector type.
 		const auto d = a - mean;
-		return d * kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
+		const auto p = kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
+		return k % 2 == 0 ? V(kernels::math_functions::abs(d) * p) : V(d * p);
 	};
 
 	const T den = T(signal.size());
-- 
2.43.0


From 44f8b4a83599bff767781688bef0fdc3e33bc53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 11/25] fix: DirectFormII divides the recursive sum by the
 leading denominator coefficient

Only the input was normalized, so the output differed from DirectFormI unless the leading coefficient was 1.
---
 include/dspbb/Filtering/IIR/Realizations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 9cbb372..2ac29e2 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -167,7 +167,7 @@ void DirectFormII<T>::feed(InIter first, InIter last, OutIter outFirst, const Di
 
 	while (first != last) {
 		const auto input = *first++;
-		const auto stateNext = input * normalization - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0));
+		const auto stateNext = (input - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0))) * normalization;
 		std::move(++m_state.begin(), m_state.end(), m_state.begin());
 		*m_state.rbegin() = static_cast<T>(stateNext);
 		const auto output = static_cast<T>(std::inner_product(fwFull.begin(), fwFull.end(), stateFwView.begin(), T(0)));
-- 
2.43.0


From fceadb4ab268cd386d3cf87c8c4d00b374fffeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 12/25] fix: CascadedBiquad::order was one too large

---
 include/dspbb/LTISystems/Systems.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index da11bd8..392630a 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -130,13 +130,13 @@ T CascadedBiquad<T>::operator()(const T& x) const {
 
 template <class T>
 size_t CascadedBiquad<T>::order() const {
-	size_t numOrder = 1;
-	size_t denOrder = 1;
+	size_t numOrder = 0;
+	size_t denOrder = 0;
 	for (auto& section : sections) {
 		numOrder += section.numOrder;
 		denOrder += section.denOrder;
 	}
-	return sections.empty() ? 0 : std::max(numOrder, denOrder);
+	return std::max(numOrder, denOrder);
 }
 
 template <class T>
-- 
2.43.0


From b934abda363fd3bc742f99dcabd181f50133afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 13/25] fix: OverlapAdd with an empty result

An empty operand made the chunk size and the central offset wrap around and
tripped the assertions; stateful FIR filtering with a single tap hits this.
---
 include/dspbb/Math/OverlapAdd.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 4e18b82..86d5a42 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -122,12 +122,15 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 	if (u.size() < v.size()) {
 		return OverlapAdd(out, v, u, offset, chunkSize, clearOut);
 	}
+	const size_t fullLength = ConvolutionLength(u.size(), v.size(), CONV_FULL);
+	assert(offset + out.size() <= fullLength && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
+	if (out.size() == 0) {
+		return;
+	}
 	if (chunkSize == 0) {
 		chunkSize = impl::ola::OptimalPracticalSize(u.size(), v.size());
 	}
 	assert(chunkSize >= 2 * v.size() - 1);
-	const size_t fullLength = ConvolutionLength(u.size(), v.size(), CONV_FULL);
-	assert(offset + out.size() <= fullLength && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
 	if (clearOut) {
 		using R = typename signal_traits<std::decay_t<SignalR>>::type;
 		std::fill(out.begin(), out.end(), R(remove_complex_t<R>(0)));
@@ -178,7 +181,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_mutab
 void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, size_t chunkSize = 0, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	size_t offset = std::min(u.size() - 1, v.size() - 1);
+	size_t offset = centralLength != 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	OverlapAdd(out, u, v, offset, chunkSize, clearOut);
 }
 
@@ -205,7 +208,7 @@ auto OverlapAdd(const SignalT& u, const SignalU& v, impl::ConvFull, size_t chunk
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto OverlapAdd(const SignalT& u, const SignalU& v, impl::ConvCentral, size_t chunkSize = 0) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	size_t offset = std::min(u.size() - 1, v.size() - 1);
+	size_t offset = length != 0 ? std::min(u.size() - 1, v.size() - 1) : 0;
 	return OverlapAdd(u, v, offset, length, chunkSize);
 }
 
-- 
2.43.0


From 2f417c9d1ca6c6850e31e63c73498952e32f1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 14/25] fix: FftShift and IfftShift in place through views

The in-place case was detected by the address of the signal objects, so two
views of the same data were treated as distinct and the data was corrupted.
---
 include/dspbb/Math/FFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 60245a6..def5298 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -192,7 +192,7 @@ namespace impl {
 	template <class SignalR, class SignalT, std::enable_if_t<is_same_domain_v<SignalR, SignalT>, int> = 0>
 	void BasicShift(SignalR&& out, const SignalT& in, size_t shift) {
 		assert(out.size() == in.size());
-		if (static_cast<const void*>(std::addressof(out)) == static_cast<const void*>(std::addressof(in))) {
+		if (static_cast<const void*>(out.data()) == static_cast<const void*>(in.data())) {
 			const auto first = out.begin();
 			const auto mid = out.begin() + shift;
 			const auto last = out.end();
-- 
2.43.0


From 9bd79a9cd53e811ec254787efb0f19e2b683e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 15/25] fix: Chebyshev type I gain for orders above 32

The power of two was computed by shifting a 32-bit integer.
---
 include/dspbb/Filtering/IIR/Chebyshev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Chebyshev.hpp b/include/dspbb/Filtering/IIR/Chebyshev.hpp
index 773cf08..fd258ab 100644
--- a/include/dspbb/Filtering/IIR/Chebyshev.hpp
+++ b/include/dspbb/Filtering/IIR/Chebyshev.hpp
@@ -34,7 +34,7 @@ namespace impl {
 template <class T>
 ZeroPoleGain<T, eDiscretization::CONTINUOUS> Chebyshev1(size_t order, T ripple) {
 	const T epsilon = std::sqrt(T(1) / std::pow(T(1) - ripple, T(2)) - 1);
-	const T gain = T(1) / (T(1u << (order - 1)) * epsilon);
+	const T gain = T(1) / (std::ldexp(T(1), int(order) - 1) * epsilon);
 
 	FactoredPolynomial<T> poles;
 	poles.resize(order % 2, order / 2);
-- 
2.43.0


From 97517e13f21778041023d9291ccb3a7a7a332e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 16/25] fix: Pow of a signal view did not compile

---
 include/dspbb/Math/Functions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Functions.hpp b/include/dspbb/Math/Functions.hpp
index 4ed4d44..e9ee541 100644
--- a/include/dspbb/Math/Functions.hpp
+++ b/include/dspbb/Math/Functions.hpp
@@ -62,7 +62,9 @@ auto Pow(SignalT&& out, const SignalU& in, typename signal_traits<std::decay_t<S
 }
 template <class SignalT, std::enable_if_t<is_signal_like_v<std::decay_t<SignalT>>, int> = 0>
 auto Pow(const SignalT& signal, typename signal_traits<std::decay_t<SignalT>>::type power) {
-	SignalT r(signal.size());
+	using R = std::remove_const_t<typename signal_traits<SignalT>::type>;
+	constexpr auto domain = signal_traits<SignalT>::domain;
+	BasicSignal<R, domain> r(signal.size());
 	Pow(r, signal, power);
 	return r;
 }
-- 
2.43.0


From add85d87f78503ddfe788fdd19744fc48216bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 17/25] fix: Bisect left the bracket when the product of two
 tiny values underflowed

---
 include/dspbb/Math/Solvers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Solvers.hpp b/include/dspbb/Math/Solvers.hpp
index 195b148..8a5d5e6 100644
--- a/include/dspbb/Math/Solvers.hpp
+++ b/include/dspbb/Math/Solvers.hpp
@@ -10,7 +10,8 @@ T Bisect(Func func, T a, T b, T tolerance = T(0)) {
 	do {
 		const auto fa = func(a);
 		const auto fc = func(c);
-		if (fa * fc <= 0) {
+		// Do not multiply the values: the product of tiny values of equal sign underflows to zero.
+		if ((fa <= 0 && fc >= 0) || (fa >= 0 && fc <= 0)) {
 			b = c;
 		}
 		else {
-- 
2.43.0


From 8ed92f15c3fb5ff26059987e8bb8ca3935372dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 18/25] fix: PolyphaseDecompose of a view of constant samples
 did not compile

---
 include/dspbb/Filtering/Polyphase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/Polyphase.hpp b/include/dspbb/Filtering/Polyphase.hpp
index 1cd85b6..c36de83 100644
--- a/include/dspbb/Filtering/Polyphase.hpp
+++ b/include/dspbb/Filtering/Polyphase.hpp
@@ -124,7 +124,7 @@ auto PolyphaseDecompose(SignalR&& output, const SignalT& filter, size_t numFilte
 
 template <class SignalT>
 auto PolyphaseDecompose(const SignalT& filter, size_t numFilters) {
-	using R = typename signal_traits<std::decay_t<SignalT>>::type;
+	using R = std::remove_const_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	constexpr auto Domain = signal_traits<std::decay_t<SignalT>>::domain;
 	PolyphaseFilter<R, Domain> polyphase{ filter.size(), numFilters };
 
-- 
2.43.0


From 5def5e90f41bb9b168d192cb926fb4d44f8fe714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 19/25] fix: PolyphaseDecompose of a complex filter did not
 compile

---
 include/dspbb/Filtering/Polyphase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/Polyphase.hpp b/include/dspbb/Filtering/Polyphase.hpp
index c36de83..88bb90e 100644
--- a/include/dspbb/Filtering/Polyphase.hpp
+++ b/include/dspbb/Filtering/Polyphase.hpp
@@ -116,7 +116,7 @@ auto PolyphaseDecompose(SignalR&& output, const SignalT& filter, size_t numFilte
 			*it = filter[phaseIdx + coeffIdx * numFilters];
 			++coeffIdx;
 		}
-		filterPhase *= numFilters;
+		filterPhase *= remove_complex_t<R>(numFilters);
 	}
 
 	return view;
-- 
2.43.0


From 8961e517a0182e1ae0960e79041465a3ca32a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 20/25] fix: least-squares Hilbert design ignored the grid size
 set on its description

---
 include/dspbb/Filtering/FIR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 5d22050..50cf9a1 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -188,7 +188,7 @@ auto DesignFilter(SignalR&& out, const impl::windowed::HilbertDesc<WindowType>&
 template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 auto DesignFilter(SignalR&& out, const impl::least_squares::HilbertDesc<ParamType>& desc) {
 	const ParamType transitionBand = desc.transitionWidth;
-	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1);
+	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1).Grid(desc.grid);
 	impl::FirFilterHilbert(out, halfband);
 }
 
-- 
2.43.0


From baf5f9ef4a2724f393afe585ee12123cbacc8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:38 +0000
Subject: [PATCH 21/25] fix: resizing a factored polynomial to more real roots
 corrupted its conjugate pairs

---
 include/dspbb/Math/Polynomials.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index 544e15f..c64f893 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -222,7 +222,7 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	}
 	m_mem.resize(numCoeffs);
 	if (currentRealRoots < numRealRoots) {
-		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (numCoeffs - numRealRoots), m_mem.end());
+		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.end() - (numRealRoots - currentRealRoots), m_mem.end());
 	}
 	m_real = { m_mem.data(), numRealRoots };
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + numRealRoots), numComplexPairs };
-- 
2.43.0


From 7dc73751cb5c07cceb71da56a868764e0e439797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:24 +0000
Subject: [PATCH 22/25] fix: band transforms of systems with more zeros than
 poles used a wrapped-around gain exponent

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 65ebd96..971483f 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -39,8 +39,8 @@ namespace impl {
 		const auto rgain = [s, a1, a0](const T& p) {
 			return a1 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
-		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
+		const T normGainExponent = T(system.poles.num_roots()) - T(system.zeros.num_roots());
+		const T normGain = normGainExponent != T(0) ? T(std::pow(a0, normGainExponent)) : T(1);
 
 		// Do transform
 		const size_t numRoots = std::max(system.zeros.num_roots(), system.poles.num_roots());
@@ -74,8 +74,8 @@ namespace impl {
 		const auto rgain = [s, a2, a0](const T& p) {
 			return a2 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
-		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
+		const T normGainExponent = T(system.poles.num_roots()) - T(system.zeros.num_roots());
+		const T normGain = normGainExponent != T(0) ? T(std::pow(a0, normGainExponent)) : T(1);
 
 		// Do transform
 		const size_t numRoots = std::max(system.zeros.num_roots(), system.poles.num_roots());
-- 
2.43.0


From ba9af7e0c29fabbe329d525dd1da759b36d375e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:07 +0000
Subject: [PATCH 23/25] fix: Halfband2Highpass divided by zero for a cut-off in
 the middle of the band

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 971483f..d51ef14 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -104,8 +104,8 @@ DiscreteZeroPoleGain<T> Halfband2Highpass(const DiscreteZeroPoleGain<T>& system,
 	const T w = to * pi_v<T>;
 
 	const T s = -T(1);
-	const T a1 = std::cos(w) / (-1 + std::sin(w));
-	const T a0 = 1;
+	const T a1 = 1;
+	const T a0 = -(std::cos(w) / (1 + std::sin(w)));
 
 	return impl::MapZDomain(system, s, a0, a1);
 }
-- 
2.43.0


From 88d4ee97b75441095808407644d59ef163d02d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 24/25] fix: Halfband2Bandpass divided by zero for a pass band
 of half the spectrum

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index d51ef14..590205e 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -116,9 +116,9 @@ DiscreteZeroPoleGain<T> Halfband2Bandpass(const DiscreteZeroPoleGain<T>& system,
 	const T w2 = to2 * pi_v<T>;
 
 	const T s = -T(1);
-	const T a2 = -1 + 2 / (1 + std::tan((w1 - w2) / 2));
-	const T a1 = -((std::cos(w1) + std::cos(w2) + std::sin(w1) - std::sin(w2)) / (1 + std::sin(w1 - w2)));
-	const T a0 = 1;
+	const T a2 = 1;
+	const T a1 = (std::cos(w1) + std::cos(w2) - std::sin(w1) + std::sin(w2)) / (-1 + std::sin(w1 - w2));
+	const T a0 = -1 - 2 / (-1 + std::tan((w1 - w2) / 2));
 
 	return impl::MapZDomain(system, s, a0, a1, a2);
 }
-- 
2.43.0


From 49240c1f6d08d570e3363b664a16c7515226b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:13 +0000
Subject: [PATCH 25/25] fix: measuring a response without samples read past its
 end

---
 include/dspbb/Filtering/MeasureFilter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/MeasureFilter.hpp b/include/dspbb/Filtering/MeasureFilter.hpp
index 50fb9b7..dd7e85e 100644
--- a/include/dspbb/Filtering/MeasureFilter.hpp
+++ b/include/dspbb/Filtering/MeasureFilter.hpp
@@ -87,7 +87,7 @@ namespace impl {
 		std::vector<Band> bands;
 		auto it = spectrum.begin();
 		size_t index = 0;
-		do {
+		while (it != spectrum.end()) {
 			const bool pass = *it > threshold;
 			bands.push_back({ index, pass });
 
@@ -104,7 +104,7 @@ namespace impl {
 			const size_t concludeIndex = concludeIt - spectrum.begin();
 			index = (concludeIndex + triggerIndex) / 2;
 			it = concludeIt;
-		} while (it != spectrum.end());
+		}
 
 		return bands;
 	}
-- 
2.43.0


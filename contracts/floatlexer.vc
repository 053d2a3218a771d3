%prelude
// what the lexer guarantees about a FloatLexer<10> under construction
pub open spec fn fl_wf(f: FloatLexer) -> bool { f.upperPart.value >= 0 && 0 <= f.lowerPart.value < 922337203685477580 && f.exponential.value >= 0 && f.fractionalLeadingZeros >= 0 }
%end
%fn marco::lexer::FloatLexer<10u>::addUpper(int)
%name Fl_addUpper
%req
- fl_wf(this)
- 0 <= i < 10
%ens
- [the integral part accumulates the digit] acc_step(this.upperPart.value, 10, i, post_this.upperPart.value)
- [only the integral part changes] post_this == (FloatLexer { upperPart: post_this.upperPart, ..this })
- fl_wf(post_this)
%endfn
%fn marco::lexer::FloatLexer<10u>::addLower(int)
%name Fl_addLower
%req
- fl_wf(this) && this.fractionalLeadingZeros < 2147483647
- 0 <= i < 10
%ens
- [the fractional part accumulates the digit while it is representable] (this.lowerPart.value < 92233720368547758 ==> post_this.lowerPart.value == this.lowerPart.value * 10 + i)
- [the integral part and the exponent do not change] post_this.upperPart == this.upperPart && post_this.exponential == this.exponential && post_this.expSign == this.expSign && post_this.hasExponential == this.hasExponential
- fl_wf(post_this)
- this.fractionalLeadingZeros <= post_this.fractionalLeadingZeros <= this.fractionalLeadingZeros + 1
%endfn
%fn marco::lexer::FloatLexer<10u>::addExponential(int)
%name Fl_addExponential
%req
- fl_wf(this)
- 0 <= i < 10
%ens
- [the exponent accumulates the digit] acc_step(this.exponential.value, 10, i, post_this.exponential.value)
- [only the exponent changes] post_this == (FloatLexer { exponential: post_this.exponential, hasExponential: true, ..this })
- fl_wf(post_this)
%endfn
%fn marco::lexer::FloatLexer<10u>::setSign(bool)
%name Fl_setSign
%ens
- [the sign of the exponent is the given one] post_this == (FloatLexer { hasExponential: true, expSign: sign, ..this })
%endfn
%fn marco::lexer::FloatLexer<10u>::getUpperPart() const
%name Fl_getUpperPart
%ens
- [the integral part is returned] ret == this.upperPart.value
%endfn
%fn marco::lexer::FloatLexer<10u>::get() const
%name Fl_get
%req
- fl_wf(this)
%loop 1
%inv
- 1 <= mantissaNormalizer <= 9223372036854775800
%dec
- this.lowerPart.value * 10 + 10 - mantissaNormalizer
%endloop
%endfn
%fn marco::lexer::FloatLexer<10u>::reset()
%name Fl_reset
%ens
- [reset starts a fresh literal] post_this.upperPart.value == 0 && post_this.lowerPart.value == 0 && post_this.exponential.value == 0 && !post_this.hasExponential && post_this.expSign && post_this.leadingZero && post_this.fractionalLeadingZeros == 0
%endfn

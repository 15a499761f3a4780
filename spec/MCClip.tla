------------------------------- MODULE MCClip -------------------------------
EXTENDS Clip
MCAbsent == <<-77>>
StepNo == {MCAbsent}
JumpNo == {MCAbsent}
\* pairs of forced times: interior, at or before the start, beyond the end, repeated, one tick apart
Step1 == {<<1500, 2500>>, <<1000, 1003>>, <<0, 3000>>, <<-5, 9000>>, <<2000, 2000>>}
Jump1 == {<<1500, 2500>>, <<700, 3001>>, <<0, 2000>>, <<1, 1400>>, <<2, 9000>>, <<4000, 1001>>, <<-1, 3000>>}
\* both: forced times at, just before and just after discontinuities
Step2 == {<<1500, 2500>>, <<1499, 1501>>, <<1000, 3000>>}
Jump2 == {<<1500, 2800>>, <<1000, 2500>>, <<9000, 1>>}
=============================================================================

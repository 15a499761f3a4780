------------------------------ MODULE MCSteady ------------------------------
EXTENDS Steady
MCStarts == {<<4096, -4096>>, <<4096, 12288>>, <<-8192, 0>>}
MCGoals == {<<0, 0>>, <<2048, -8192>>}
MCWindows == {<<99, 99>>, <<2, 3>>, <<3, 9>>, <<0, 1>>}
=============================================================================

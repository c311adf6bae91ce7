From 6311a16d12f14e7e671b12a51c6df670802db812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:36 +0000
Subject: [PATCH 01/98] fix: give % and ^ their documented c precedence

---
 discrete_src/cc/cc.h | 4 ++--
 src/wrench.cpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index e391ab1..d6e5ebd 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -90,11 +90,11 @@ const WROperation c_operations[] =
 	{ "-",    6, O_BinarySubtraction,   true,  WR_OPER_BINARY, O_LAST },
 	{ "*",    5, O_BinaryMultiplication,true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "/",    5, O_BinaryDivision,      true,  WR_OPER_BINARY, O_LAST },
-	{ "%",    6, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
+	{ "%",    5, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
 
 	{ "|",   13, O_BinaryOr,            true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "&",   11, O_BinaryAnd,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
-	{ "^",   11, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
+	{ "^",   12, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 
 	{ ">>",   7, O_BinaryRightShift,    true,  WR_OPER_BINARY, O_LAST },
 	{ "<<",   7, O_BinaryLeftShift,     true,  WR_OPER_BINARY, O_LAST },
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d39d438..0ed68d1 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1855,11 +1855,11 @@ const WROperation c_operations[] =
 	{ "-",    6, O_BinarySubtraction,   true,  WR_OPER_BINARY, O_LAST },
 	{ "*",    5, O_BinaryMultiplication,true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "/",    5, O_BinaryDivision,      true,  WR_OPER_BINARY, O_LAST },
-	{ "%",    6, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
+	{ "%",    5, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
 
 	{ "|",   13, O_BinaryOr,            true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "&",   11, O_BinaryAnd,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
-	{ "^",   11, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
+	{ "^",   12, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 
 	{ ">>",   7, O_BinaryRightShift,    true,  WR_OPER_BINARY, O_LAST },
 	{ "<<",   7, O_BinaryLeftShift,     true,  WR_OPER_BINARY, O_LAST },
-- 
2.43.0


From a0e26e4fd969ca3d23a275df31f49844f87c501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:36 +0000
Subject: [PATCH 02/98] fix: comparing an int variable with a float must not
 retype the variable

---
 discrete_src/vm/operations_non_compact.cpp | 4 ++--
 src/wrench.cpp                             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index fae3ea9..31c38af 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -711,7 +711,7 @@ bool NAME##_R_F( WRValue* to, WRValue* from ) { return NAME[(to->r->type<<2)|WR_
 bool NAME##_I_R( WRValue* to, WRValue* from ) { return NAME[(WR_INT<<2)+from->r->type](to, from->r); }\
 bool NAME##_F_R( WRValue* to, WRValue* from ) { return NAME[(WR_FLOAT<<2)+from->r->type](to, from->r); }\
 bool NAME##_I_I( WRValue* to, WRValue* from ) { return to->i OPERATION from->i; }\
-bool NAME##_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i OPERATION from->f; }\
+bool NAME##_I_F( WRValue* to, WRValue* from ) { return (float)to->i OPERATION from->f; }\
 bool NAME##_F_I( WRValue* to, WRValue* from ) { return to->f OPERATION (float)from->i; }\
 bool NAME##_F_F( WRValue* to, WRValue* from ) { return to->f OPERATION from->f; }\
 WRReturnFunc NAME[16] = \
@@ -772,7 +772,7 @@ bool wr_CompareLT_R_F( WRValue* to, WRValue* from ) { return wr_CompareLT[(to->r
 bool wr_CompareLT_I_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_INT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_F_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_FLOAT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_I_I( WRValue* to, WRValue* from ) { return to->i < from->i; }
-bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i < from->f; }
+bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { return (float)to->i < from->f; }
 bool wr_CompareLT_F_I( WRValue* to, WRValue* from ) { return to->f < (float)from->i; }
 bool wr_CompareLT_F_F( WRValue* to, WRValue* from ) { return to->f < from->f; }
 WRReturnFunc wr_CompareLT[16] = 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0ed68d1..2296188 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19323,7 +19323,7 @@ bool NAME##_R_F( WRValue* to, WRValue* from ) { return NAME[(to->r->type<<2)|WR_
 bool NAME##_I_R( WRValue* to, WRValue* from ) { return NAME[(WR_INT<<2)+from->r->type](to, from->r); }\
 bool NAME##_F_R( WRValue* to, WRValue* from ) { return NAME[(WR_FLOAT<<2)+from->r->type](to, from->r); }\
 bool NAME##_I_I( WRValue* to, WRValue* from ) { return to->i OPERATION from->i; }\
-bool NAME##_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i OPERATION from->f; }\
+bool NAME##_I_F( WRValue* to, WRValue* from ) { return (float)to->i OPERATION from->f; }\
 bool NAME##_F_I( WRValue* to, WRValue* from ) { return to->f OPERATION (float)from->i; }\
 bool NAME##_F_F( WRValue* to, WRValue* from ) { return to->f OPERATION from->f; }\
 WRReturnFunc NAME[16] = \
@@ -19384,7 +19384,7 @@ bool wr_CompareLT_R_F( WRValue* to, WRValue* from ) { return wr_CompareLT[(to->r
 bool wr_CompareLT_I_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_INT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_F_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_FLOAT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_I_I( WRValue* to, WRValue* from ) { return to->i < from->i; }
-bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i < from->f; }
+bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { return (float)to->i < from->f; }
 bool wr_CompareLT_F_I( WRValue* to, WRValue* from ) { return to->f < (float)from->i; }
 bool wr_CompareLT_F_F( WRValue* to, WRValue* from ) { return to->f < from->f; }
 WRReturnFunc wr_CompareLT[16] = 
-- 
2.43.0


From e4fd29fd4c97236d9b589375338b0baa939b91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:37 +0000
Subject: [PATCH 03/98] fix: integer operators with an indexed left operand and
 a variable right operand

---
 discrete_src/vm/operations_non_compact.cpp | 2 +-
 src/wrench.cpp                             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 31c38af..712fc80 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -653,7 +653,7 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 	WRValue& V = from->singleValue();\
 	NAME##Binary[(WR_INT<<2)+V.type](to, &V, target);\
 }\
-void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
+void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
 void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2296188..5cacf7f 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19265,7 +19265,7 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 	WRValue& V = from->singleValue();\
 	NAME##Binary[(WR_INT<<2)+V.type](to, &V, target);\
 }\
-void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
+void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
 void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-- 
2.43.0


From f88428b20c3158644554d4dfa0f77f5eeb4850f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:10 +0000
Subject: [PATCH 04/98] fix: compound assignment to an element must not
 overwrite the right-hand variable

---
 discrete_src/vm/operations_compact.cpp     |  4 +++-
 discrete_src/vm/operations_non_compact.cpp | 18 +++++++++++++-----
 src/wrench.cpp                             | 22 ++++++++++++++++------
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index 0464466..b77bfd9 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -90,7 +90,9 @@ void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(WR_EX<<2)|from->r->type](to, from->r, intCall, floatCall);
+	WRValue temp = *from->r;
+	wr_FuncAssign[(WR_EX<<2)|temp.type](to, &temp, intCall, floatCall);
+	*from = temp;
 }
 
 void FuncAssign_R_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 712fc80..b39cdf8 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -56,7 +56,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	NAME##Assign[(WR_INT<<2)+V.type](to, &V);\
 	*from = *to;\
 }\
-void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
+void NAME##Assign_E_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_EX<<2)|temp.type]( to, &temp ); *from = temp; }\
 void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
@@ -118,7 +118,9 @@ void wr_SubtractAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_SubtractAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_SubtractAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -178,7 +180,9 @@ void wr_MultiplyAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_MultiplyAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_MultiplyAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -238,7 +242,9 @@ void wr_DivideAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_DivideAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_DivideAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -379,7 +385,9 @@ void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_AddAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_AddAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_AddAssign_R_E( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }
 void wr_AddAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 5cacf7f..4b1abc5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18441,7 +18441,9 @@ void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(WR_EX<<2)|from->r->type](to, from->r, intCall, floatCall);
+	WRValue temp = *from->r;
+	wr_FuncAssign[(WR_EX<<2)|temp.type](to, &temp, intCall, floatCall);
+	*from = temp;
 }
 
 void FuncAssign_R_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
@@ -18668,7 +18670,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	NAME##Assign[(WR_INT<<2)+V.type](to, &V);\
 	*from = *to;\
 }\
-void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
+void NAME##Assign_E_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_EX<<2)|temp.type]( to, &temp ); *from = temp; }\
 void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
@@ -18730,7 +18732,9 @@ void wr_SubtractAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_SubtractAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_SubtractAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -18790,7 +18794,9 @@ void wr_MultiplyAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_MultiplyAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_MultiplyAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -18850,7 +18856,9 @@ void wr_DivideAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_DivideAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_DivideAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -18991,7 +18999,9 @@ void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_AddAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_AddAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_AddAssign_R_E( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }
 void wr_AddAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
-- 
2.43.0


From ead10847926f2dbade03edb7590c23a8d0be22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:09 +0000
Subject: [PATCH 05/98] fix: string concatenation with floats and with
 container elements

---
 discrete_src/vm/operations_compact.cpp     | 30 ++++++-
 discrete_src/vm/operations_non_compact.cpp | 63 +++++++++++++--
 src/wrench.cpp                             | 93 +++++++++++++++++++---
 3 files changed, 164 insertions(+), 22 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index b77bfd9..b72197e 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -59,6 +59,13 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
 	}
+	else if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_FuncAssign[(V.type<<2)|WR_EX]( &V, from, intCall, floatCall );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
 	else if ( wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
@@ -66,7 +73,14 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( wr_concatStringCheck(to, from, to) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_FuncAssign[(V.type<<2)|from->type]( &V, from, intCall, floatCall );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
+	else if ( wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
 	}
@@ -144,7 +158,12 @@ WRFuncAssignFunc wr_FuncAssign[16] =
 //------------------------------------------------------------------------------
 void FuncBinary_E_X( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall intCall, WRFuncFloatCall floatCall  )
 {
-	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_funcBinary[(V.type<<2)|from->type](&V, from, target, intCall, floatCall);
+	}
+	else if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
 	{
 		WRValue& V = to->singleValue();
 		wr_funcBinary[(V.type<<2)|from->type](&V, from, target, intCall, floatCall);
@@ -165,7 +184,12 @@ void FuncBinary_E_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall
 }
 void FuncBinary_X_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall intCall, WRFuncFloatCall floatCall  )
 {
-	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
+	if ( IS_CONTAINER_MEMBER(from->xtype) )
+	{
+		WRValue V = from->deref();
+		wr_funcBinary[(to->type<<2)|V.type](to, &V, target, intCall, floatCall);
+	}
+	else if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
 	{
 		WRValue& V = from->singleValue();
 		wr_funcBinary[(to->type<<2)|V.type](to, &V, target, intCall, floatCall);
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index b39cdf8..24b6633 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -328,7 +328,14 @@ WRVoidFunc wr_DivideAssign[16] =
 
 void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AddAssign[(V.type<<2)|WR_INT]( &V, from );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
+	else if ( !wr_concatStringCheck( to, from, to) )
 	{
 		WRValue& V = to->singleValue();
 	
@@ -341,7 +348,14 @@ void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 
 void wr_AddAssign_E_F( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AddAssign[(V.type<<2)|WR_FLOAT]( &V, from );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
+	else if ( !wr_concatStringCheck( to, from, to) )
 	{
 		WRValue& V = to->singleValue();
 
@@ -360,6 +374,13 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
 	}
+	else if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AddAssign[(V.type<<2)|WR_EX]( &V, from );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
 	else
 	{
 		wr_concatStringCheck( to, from, to );
@@ -582,7 +603,12 @@ WRTargetFunc wr_DivideBinary[16] =
 
 void wr_AdditionBinary_E_I( WRValue* to, WRValue* from, WRValue* target )
 {
-	if ( !wr_concatStringCheck(to, from, target) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AdditionBinary[(V.type<<2)|WR_INT](&V, from, target);
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
 	{
 		WRValue& V = to->singleValue();
 		wr_AdditionBinary[(V.type<<2)|WR_INT](&V, from, target);
@@ -591,7 +617,12 @@ void wr_AdditionBinary_E_I( WRValue* to, WRValue* from, WRValue* target )
 
 void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 {
-	if ( !wr_concatStringCheck(to, from, target) )
+	if ( IS_CONTAINER_MEMBER(from->xtype) )
+	{
+		WRValue V = from->deref();
+		wr_AdditionBinary[(WR_INT<<2)|V.type](to, &V, target);
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
 	{
 		WRValue& V = from->singleValue();
 		wr_AdditionBinary[(WR_INT << 2) | V.type](to, &V, target);
@@ -600,8 +631,16 @@ void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 
 void wr_AdditionBinary_E_F( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = to->singleValue();
-	wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = to->singleValue();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
 }
 void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 {
@@ -618,8 +657,16 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = from->singleValue();
-	wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	if ( IS_CONTAINER_MEMBER(from->xtype) )
+	{
+		WRValue V = from->deref();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = from->singleValue();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
 }
 void wr_AdditionBinary_R_E( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(to->r->type<<2)|WR_EX]( to->r, from, target); }
 void wr_AdditionBinary_E_R( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(WR_EX<<2)+from->r->type](to, from->r, target); }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4b1abc5..65465b1 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18410,6 +18410,13 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
 	}
+	else if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_FuncAssign[(V.type<<2)|WR_EX]( &V, from, intCall, floatCall );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
 	else if ( wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
@@ -18417,7 +18424,14 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( wr_concatStringCheck(to, from, to) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_FuncAssign[(V.type<<2)|from->type]( &V, from, intCall, floatCall );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
+	else if ( wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
 	}
@@ -18495,7 +18509,12 @@ WRFuncAssignFunc wr_FuncAssign[16] =
 //------------------------------------------------------------------------------
 void FuncBinary_E_X( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall intCall, WRFuncFloatCall floatCall  )
 {
-	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_funcBinary[(V.type<<2)|from->type](&V, from, target, intCall, floatCall);
+	}
+	else if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
 	{
 		WRValue& V = to->singleValue();
 		wr_funcBinary[(V.type<<2)|from->type](&V, from, target, intCall, floatCall);
@@ -18516,7 +18535,12 @@ void FuncBinary_E_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall
 }
 void FuncBinary_X_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall intCall, WRFuncFloatCall floatCall  )
 {
-	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
+	if ( IS_CONTAINER_MEMBER(from->xtype) )
+	{
+		WRValue V = from->deref();
+		wr_funcBinary[(to->type<<2)|V.type](to, &V, target, intCall, floatCall);
+	}
+	else if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
 	{
 		WRValue& V = from->singleValue();
 		wr_funcBinary[(to->type<<2)|V.type](to, &V, target, intCall, floatCall);
@@ -18942,7 +18966,14 @@ WRVoidFunc wr_DivideAssign[16] =
 
 void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AddAssign[(V.type<<2)|WR_INT]( &V, from );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
+	else if ( !wr_concatStringCheck( to, from, to) )
 	{
 		WRValue& V = to->singleValue();
 	
@@ -18955,7 +18986,14 @@ void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 
 void wr_AddAssign_E_F( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AddAssign[(V.type<<2)|WR_FLOAT]( &V, from );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
+	else if ( !wr_concatStringCheck( to, from, to) )
 	{
 		WRValue& V = to->singleValue();
 
@@ -18974,6 +19012,13 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
 	}
+	else if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AddAssign[(V.type<<2)|WR_EX]( &V, from );
+		wr_valueToEx( to, &V );
+		*from = V;
+	}
 	else
 	{
 		wr_concatStringCheck( to, from, to );
@@ -19196,7 +19241,12 @@ WRTargetFunc wr_DivideBinary[16] =
 
 void wr_AdditionBinary_E_I( WRValue* to, WRValue* from, WRValue* target )
 {
-	if ( !wr_concatStringCheck(to, from, target) )
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AdditionBinary[(V.type<<2)|WR_INT](&V, from, target);
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
 	{
 		WRValue& V = to->singleValue();
 		wr_AdditionBinary[(V.type<<2)|WR_INT](&V, from, target);
@@ -19205,7 +19255,12 @@ void wr_AdditionBinary_E_I( WRValue* to, WRValue* from, WRValue* target )
 
 void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 {
-	if ( !wr_concatStringCheck(to, from, target) )
+	if ( IS_CONTAINER_MEMBER(from->xtype) )
+	{
+		WRValue V = from->deref();
+		wr_AdditionBinary[(WR_INT<<2)|V.type](to, &V, target);
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
 	{
 		WRValue& V = from->singleValue();
 		wr_AdditionBinary[(WR_INT << 2) | V.type](to, &V, target);
@@ -19214,8 +19269,16 @@ void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 
 void wr_AdditionBinary_E_F( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = to->singleValue();
-	wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		WRValue V = to->deref();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = to->singleValue();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
 }
 void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 {
@@ -19232,8 +19295,16 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = from->singleValue();
-	wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	if ( IS_CONTAINER_MEMBER(from->xtype) )
+	{
+		WRValue V = from->deref();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = from->singleValue();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
 }
 void wr_AdditionBinary_R_E( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(to->r->type<<2)|WR_EX]( to->r, from, target); }
 void wr_AdditionBinary_E_R( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(WR_EX<<2)+from->r->type](to, from->r, target); }
-- 
2.43.0


From 521700b409d9b6eab14a43d06a9bdc3a49fc16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:01 +0000
Subject: [PATCH 06/98] fix: compound assignment between two elements clobbered
 operands

---
 discrete_src/vm/operations_compact.cpp     |  2 +-
 discrete_src/vm/operations_non_compact.cpp | 10 +++++-----
 src/wrench.cpp                             | 12 ++++++------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index b72197e..7efa793 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -54,7 +54,7 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 24b6633..adf1293 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -45,7 +45,7 @@ void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 }\
 void NAME##Assign_E_E( WRValue* to, WRValue* from ) \
 {\
-	WRValue& V = from->singleValue();\
+	WRValue V = from->singleValue();\
 	\
 	NAME##Assign[(WR_EX<<2)+V.type]( to, &V );\
 	*from = to->deref();\
@@ -99,7 +99,7 @@ void wr_SubtractAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_SubtractAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -161,7 +161,7 @@ void wr_MultiplyAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_MultiplyAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -223,7 +223,7 @@ void wr_DivideAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_DivideAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -369,7 +369,7 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 65465b1..c804345 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18405,7 +18405,7 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
@@ -18683,7 +18683,7 @@ void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 }\
 void NAME##Assign_E_E( WRValue* to, WRValue* from ) \
 {\
-	WRValue& V = from->singleValue();\
+	WRValue V = from->singleValue();\
 	\
 	NAME##Assign[(WR_EX<<2)+V.type]( to, &V );\
 	*from = to->deref();\
@@ -18737,7 +18737,7 @@ void wr_SubtractAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_SubtractAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -18799,7 +18799,7 @@ void wr_MultiplyAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_MultiplyAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -18861,7 +18861,7 @@ void wr_DivideAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_DivideAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -19007,7 +19007,7 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
-- 
2.43.0


From 32d5f3ef06d7f4c9931e90321dfe4570cf462fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:37 +0000
Subject: [PATCH 07/98] fix: modulo by zero and INT_MIN / -1 killed the host
 process

---
 discrete_src/vm/operations_non_compact.cpp | 46 ++++++++++++--------
 discrete_src/vm/vm.cpp                     |  4 +-
 src/wrench.cpp                             | 50 +++++++++++++---------
 3 files changed, 60 insertions(+), 40 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index adf1293..394667d 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -31,6 +31,16 @@ inline int32_t wr_iadd_wrap( const int32_t a, const int32_t b ) { return (int32_
 inline int32_t wr_isub_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a - (uint32_t)b); }
 inline int32_t wr_imul_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a * (uint32_t)b); }
 
+// plain int operators, dividing by -1 wraps (INT_MIN / -1 traps in hardware)
+// and the remainder of a division by zero is zero
+#define WR_IOP_OR( a, b ) ((a) | (b))
+#define WR_IOP_AND( a, b ) ((a) & (b))
+#define WR_IOP_XOR( a, b ) ((a) ^ (b))
+#define WR_IOP_RSHIFT( a, b ) ((a) >> (b))
+#define WR_IOP_LSHIFT( a, b ) ((a) << (b))
+inline int32_t wr_idiv_wrap( const int32_t a, const int32_t b ) { return (b == -1) ? wr_isub_wrap( 0, a ) : a / b; }
+inline int32_t wr_imod_wrap( const int32_t a, const int32_t b ) { return (b == 0 || b == -1) ? 0 : a % b; }
+
 void doVoidFuncBlank( WRValue* to, WRValue* from ) {}
 
 #define X_LOGIC_ASSIGN( NAME, OPERATION ) \
@@ -61,7 +71,7 @@ void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
-void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i OPERATION##= from->i; }\
+void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i = OPERATION( to->i, from->i ); }\
 WRVoidFunc NAME##Assign[16] = \
 {\
 	NAME##Assign_I_I,   doVoidFuncBlank,   NAME##Assign_I_R,  NAME##Assign_I_E,\
@@ -71,12 +81,12 @@ WRVoidFunc NAME##Assign[16] = \
 };\
 
 
-X_LOGIC_ASSIGN( wr_Mod, % );
-X_LOGIC_ASSIGN( wr_OR, | );
-X_LOGIC_ASSIGN( wr_AND, & );
-X_LOGIC_ASSIGN( wr_XOR, ^ );
-X_LOGIC_ASSIGN( wr_RightShift, >> );
-X_LOGIC_ASSIGN( wr_LeftShift, << );
+X_LOGIC_ASSIGN( wr_Mod, wr_imod_wrap );
+X_LOGIC_ASSIGN( wr_OR, WR_IOP_OR );
+X_LOGIC_ASSIGN( wr_AND, WR_IOP_AND );
+X_LOGIC_ASSIGN( wr_XOR, WR_IOP_XOR );
+X_LOGIC_ASSIGN( wr_RightShift, WR_IOP_RSHIFT );
+X_LOGIC_ASSIGN( wr_LeftShift, WR_IOP_LSHIFT );
 
 
 void wr_SubtractAssign_E_I( WRValue* to, WRValue* from )
@@ -273,7 +283,7 @@ void wr_DivideAssign_I_I( WRValue* to, WRValue* from )
 {
 	if ( from->i )
 	{
-		to->i = to->i / from->i;
+		to->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -532,7 +542,7 @@ void wr_DivideBinary_I_I( WRValue* to, WRValue* from, WRValue* target )
 	target->p2 = INIT_AS_INT;
 	if ( from->i )
 	{
-		target->i = to->i / from->i;
+		target->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -710,10 +720,10 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 }\
 void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
-void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
+void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = OPERATION( to->i, rhs->i ); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = lhs->i OPERATION from->i; } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
-void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION from->i; }\
+void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = OPERATION( lhs->i, from->i ); } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
+void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = OPERATION( to->i, from->i ); }\
 WRTargetFunc NAME##Binary[16] = \
 {\
 	NAME##Binary_I_I, doTargetFuncBlank,   NAME##Binary_I_R,  NAME##Binary_I_E,\
@@ -722,12 +732,12 @@ WRTargetFunc NAME##Binary[16] = \
 	NAME##Binary_E_I, doTargetFuncBlank,   NAME##Binary_E_R,  NAME##Binary_E_E,\
 };\
 
-X_INT_BINARY( wr_LeftShift, << );
-X_INT_BINARY( wr_RightShift, >> );
-X_INT_BINARY( wr_Mod, % );
-X_INT_BINARY( wr_AND, & );
-X_INT_BINARY( wr_OR, | );
-X_INT_BINARY( wr_XOR, ^ );
+X_INT_BINARY( wr_LeftShift, WR_IOP_LSHIFT );
+X_INT_BINARY( wr_RightShift, WR_IOP_RSHIFT );
+X_INT_BINARY( wr_Mod, wr_imod_wrap );
+X_INT_BINARY( wr_AND, WR_IOP_AND );
+X_INT_BINARY( wr_OR, WR_IOP_OR );
+X_INT_BINARY( wr_XOR, WR_IOP_XOR );
 
 
 
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 7a44535..4e3c3e1 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -247,7 +247,7 @@ static float multiplicationF( float a, float b ) { return a * b; }
 
 static int divisionI( int a, int b )
 {
-	return b ? a / b : 0;
+	return b ? ((b == -1) ? (int)(0u - (unsigned int)a) : a / b) : 0; // INT_MIN / -1 traps in hardware
 }
 int wr_addI( int a, int b ) { return a + b; }
 static int subtractionI( int a, int b ) { return a - b; }
@@ -255,7 +255,7 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return a % b; }
+static int modI( int a, int b ) { return (b == 0 || b == -1) ? 0 : a % b; }
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c804345..bec78ff 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10413,7 +10413,7 @@ static float multiplicationF( float a, float b ) { return a * b; }
 
 static int divisionI( int a, int b )
 {
-	return b ? a / b : 0;
+	return b ? ((b == -1) ? (int)(0u - (unsigned int)a) : a / b) : 0; // INT_MIN / -1 traps in hardware
 }
 int wr_addI( int a, int b ) { return a + b; }
 static int subtractionI( int a, int b ) { return a - b; }
@@ -10421,7 +10421,7 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return a % b; }
+static int modI( int a, int b ) { return (b == 0 || b == -1) ? 0 : a % b; }
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
@@ -18669,6 +18669,16 @@ inline int32_t wr_iadd_wrap( const int32_t a, const int32_t b ) { return (int32_
 inline int32_t wr_isub_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a - (uint32_t)b); }
 inline int32_t wr_imul_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a * (uint32_t)b); }
 
+// plain int operators, dividing by -1 wraps (INT_MIN / -1 traps in hardware)
+// and the remainder of a division by zero is zero
+#define WR_IOP_OR( a, b ) ((a) | (b))
+#define WR_IOP_AND( a, b ) ((a) & (b))
+#define WR_IOP_XOR( a, b ) ((a) ^ (b))
+#define WR_IOP_RSHIFT( a, b ) ((a) >> (b))
+#define WR_IOP_LSHIFT( a, b ) ((a) << (b))
+inline int32_t wr_idiv_wrap( const int32_t a, const int32_t b ) { return (b == -1) ? wr_isub_wrap( 0, a ) : a / b; }
+inline int32_t wr_imod_wrap( const int32_t a, const int32_t b ) { return (b == 0 || b == -1) ? 0 : a % b; }
+
 void doVoidFuncBlank( WRValue* to, WRValue* from ) {}
 
 #define X_LOGIC_ASSIGN( NAME, OPERATION ) \
@@ -18699,7 +18709,7 @@ void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
-void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i OPERATION##= from->i; }\
+void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i = OPERATION( to->i, from->i ); }\
 WRVoidFunc NAME##Assign[16] = \
 {\
 	NAME##Assign_I_I,   doVoidFuncBlank,   NAME##Assign_I_R,  NAME##Assign_I_E,\
@@ -18709,12 +18719,12 @@ WRVoidFunc NAME##Assign[16] = \
 };\
 
 
-X_LOGIC_ASSIGN( wr_Mod, % );
-X_LOGIC_ASSIGN( wr_OR, | );
-X_LOGIC_ASSIGN( wr_AND, & );
-X_LOGIC_ASSIGN( wr_XOR, ^ );
-X_LOGIC_ASSIGN( wr_RightShift, >> );
-X_LOGIC_ASSIGN( wr_LeftShift, << );
+X_LOGIC_ASSIGN( wr_Mod, wr_imod_wrap );
+X_LOGIC_ASSIGN( wr_OR, WR_IOP_OR );
+X_LOGIC_ASSIGN( wr_AND, WR_IOP_AND );
+X_LOGIC_ASSIGN( wr_XOR, WR_IOP_XOR );
+X_LOGIC_ASSIGN( wr_RightShift, WR_IOP_RSHIFT );
+X_LOGIC_ASSIGN( wr_LeftShift, WR_IOP_LSHIFT );
 
 
 void wr_SubtractAssign_E_I( WRValue* to, WRValue* from )
@@ -18911,7 +18921,7 @@ void wr_DivideAssign_I_I( WRValue* to, WRValue* from )
 {
 	if ( from->i )
 	{
-		to->i = to->i / from->i;
+		to->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -19170,7 +19180,7 @@ void wr_DivideBinary_I_I( WRValue* to, WRValue* from, WRValue* target )
 	target->p2 = INIT_AS_INT;
 	if ( from->i )
 	{
-		target->i = to->i / from->i;
+		target->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -19348,10 +19358,10 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 }\
 void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
-void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
+void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = OPERATION( to->i, rhs->i ); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = lhs->i OPERATION from->i; } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
-void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION from->i; }\
+void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = OPERATION( lhs->i, from->i ); } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
+void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = OPERATION( to->i, from->i ); }\
 WRTargetFunc NAME##Binary[16] = \
 {\
 	NAME##Binary_I_I, doTargetFuncBlank,   NAME##Binary_I_R,  NAME##Binary_I_E,\
@@ -19360,12 +19370,12 @@ WRTargetFunc NAME##Binary[16] = \
 	NAME##Binary_E_I, doTargetFuncBlank,   NAME##Binary_E_R,  NAME##Binary_E_E,\
 };\
 
-X_INT_BINARY( wr_LeftShift, << );
-X_INT_BINARY( wr_RightShift, >> );
-X_INT_BINARY( wr_Mod, % );
-X_INT_BINARY( wr_AND, & );
-X_INT_BINARY( wr_OR, | );
-X_INT_BINARY( wr_XOR, ^ );
+X_INT_BINARY( wr_LeftShift, WR_IOP_LSHIFT );
+X_INT_BINARY( wr_RightShift, WR_IOP_RSHIFT );
+X_INT_BINARY( wr_Mod, wr_imod_wrap );
+X_INT_BINARY( wr_AND, WR_IOP_AND );
+X_INT_BINARY( wr_OR, WR_IOP_OR );
+X_INT_BINARY( wr_XOR, WR_IOP_XOR );
 
 
 
-- 
2.43.0


From 76a9cf43b57dc726d37e6355bf9015b58d50a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:08 +0000
Subject: [PATCH 08/98] fix: && and || on floats in compact builds

---
 discrete_src/vm/vm.cpp | 16 +++++++++-------
 src/wrench.cpp         | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 4e3c3e1..73e862f 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -265,13 +265,15 @@ static bool CompareLTI( int a, int b ) { return a < b; }
 static bool CompareANDI( int a, int b ) { return a && b; }
 static bool CompareORI( int a, int b ) { return a || b; }
 
+static bool CompareANDF( float a, float b ) { return a && b; }
+static bool CompareORF( float a, float b ) { return a || b; }
+
 static bool CompareLTF( float a, float b ) { return a < b; }
 static bool CompareGTF( float a, float b ) { return a > b; }
 
 bool CompareEQI( int a, int b ) { return a == b; }
 bool CompareEQF( float a, float b ) { return WR_FLOATS_EQUAL( a, b ); }
 
-static bool CompareBlankF( float a, float b ) { return false; }
 static float blankF( float a, float b ) { return 0; }
 
 int32_t READ_32_FROM_PC_func( const unsigned char* P )
@@ -1989,7 +1991,7 @@ compactPreDecrement:
 			CASE(BLA):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLAPreLoad:
 				register0 = --stackTop;
 				register1 = --stackTop;
@@ -2002,7 +2004,7 @@ compactBLA:
 			CASE(BLA8):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLA8PreLoad:
 				register0 = --stackTop;
 compactBLA8PreReg1:
@@ -2016,7 +2018,7 @@ compactBLA8:
 			CASE(BLO):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA;
@@ -2025,7 +2027,7 @@ compactBLA8:
 			CASE(BLO8):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA8;
@@ -2141,8 +2143,8 @@ CompactFGFunc:
 				goto CompactFFFunc;
 			}
 
-			CASE(LogicalAnd): { boolIntCall = CompareANDI; goto compactReturnFuncNormal; }
-			CASE(LogicalOr): { boolIntCall = CompareORI; goto compactReturnFuncNormal; }
+			CASE(LogicalAnd): { boolIntCall = CompareANDI; boolFloatCall = CompareANDF; goto compactReturnFuncNormal; }
+			CASE(LogicalOr): { boolIntCall = CompareORI; boolFloatCall = CompareORF; goto compactReturnFuncNormal; }
 			CASE(CompareLE): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncInverted; }
 			CASE(CompareGE): { boolIntCall = CompareLTI; boolFloatCall = CompareLTF; goto compactReturnFuncInverted; }
 			CASE(CompareGT): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncNormal; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index bec78ff..f82fd8d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10431,13 +10431,15 @@ static bool CompareLTI( int a, int b ) { return a < b; }
 static bool CompareANDI( int a, int b ) { return a && b; }
 static bool CompareORI( int a, int b ) { return a || b; }
 
+static bool CompareANDF( float a, float b ) { return a && b; }
+static bool CompareORF( float a, float b ) { return a || b; }
+
 static bool CompareLTF( float a, float b ) { return a < b; }
 static bool CompareGTF( float a, float b ) { return a > b; }
 
 bool CompareEQI( int a, int b ) { return a == b; }
 bool CompareEQF( float a, float b ) { return WR_FLOATS_EQUAL( a, b ); }
 
-static bool CompareBlankF( float a, float b ) { return false; }
 static float blankF( float a, float b ) { return 0; }
 
 int32_t READ_32_FROM_PC_func( const unsigned char* P )
@@ -12155,7 +12157,7 @@ compactPreDecrement:
 			CASE(BLA):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLAPreLoad:
 				register0 = --stackTop;
 				register1 = --stackTop;
@@ -12168,7 +12170,7 @@ compactBLA:
 			CASE(BLA8):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLA8PreLoad:
 				register0 = --stackTop;
 compactBLA8PreReg1:
@@ -12182,7 +12184,7 @@ compactBLA8:
 			CASE(BLO):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA;
@@ -12191,7 +12193,7 @@ compactBLA8:
 			CASE(BLO8):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA8;
@@ -12307,8 +12309,8 @@ CompactFGFunc:
 				goto CompactFFFunc;
 			}
 
-			CASE(LogicalAnd): { boolIntCall = CompareANDI; goto compactReturnFuncNormal; }
-			CASE(LogicalOr): { boolIntCall = CompareORI; goto compactReturnFuncNormal; }
+			CASE(LogicalAnd): { boolIntCall = CompareANDI; boolFloatCall = CompareANDF; goto compactReturnFuncNormal; }
+			CASE(LogicalOr): { boolIntCall = CompareORI; boolFloatCall = CompareORF; goto compactReturnFuncNormal; }
 			CASE(CompareLE): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncInverted; }
 			CASE(CompareGE): { boolIntCall = CompareLTI; boolFloatCall = CompareLTF; goto compactReturnFuncInverted; }
 			CASE(CompareGT): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncNormal; }
-- 
2.43.0


From 1d9cdef4926ae8f3aa6681a325327a6185a4d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:33 +0000
Subject: [PATCH 09/98] fix: continue inside a foreach loop restarted the whole
 unit

---
 discrete_src/cc/cc.cpp | 3 +++
 src/wrench.cpp         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index f4ea5f8..69cfe8a 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2307,6 +2307,9 @@ A:
 		{
 			return false;
 		}
+
+		// <- continue point
+		setRelativeJumpTarget( m_units[m_unitTop].bytecode, *m_continueTargets.tail() );
 	}
 	else
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f82fd8d..7798852 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5345,6 +5345,9 @@ A:
 		{
 			return false;
 		}
+
+		// <- continue point
+		setRelativeJumpTarget( m_units[m_unitTop].bytecode, *m_continueTargets.tail() );
 	}
 	else
 	{
-- 
2.43.0


From a6b761b5369f07052e19ceef4ac99073c91d8780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:42 +0000
Subject: [PATCH 10/98] fix: first local of a function started with a stale
 value instead of 0

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 73e862f..5429e18 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1050,8 +1050,8 @@ callFunction:
 				// initialize locals to int zero
 				for( int l=0; l<function->frameSpaceNeeded; ++l )
 				{
-					(stackTop++)->p2 = INIT_AS_INT;
 					stackTop->p = 0;
+					(stackTop++)->p2 = INIT_AS_INT;
 				}
 			
 				// temp value contains return vector/frame base
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 7798852..f5870c8 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11219,8 +11219,8 @@ callFunction:
 				// initialize locals to int zero
 				for( int l=0; l<function->frameSpaceNeeded; ++l )
 				{
-					(stackTop++)->p2 = INIT_AS_INT;
 					stackTop->p = 0;
+					(stackTop++)->p2 = INIT_AS_INT;
 				}
 			
 				// temp value contains return vector/frame base
-- 
2.43.0


From 8d079eb1b404fbb147d3115a8055cf4935950b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:13 +0000
Subject: [PATCH 11/98] fix: a removed hash entry came back with its old value

---
 discrete_src/vm/gc_object.cpp | 12 ++++++++++++
 src/wrench.cpp                | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index ad49ef7..e58000a 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -170,6 +170,18 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		{
 			++m_size;
 			m_hashTable[index] = hash;
+
+			// might be a removed entry, do not resurrect its old value
+			if ( m_type == SV_HASH_TABLE )
+			{
+				m_Vdata[index << 1].init();
+				m_Vdata[(index << 1) + 1].init();
+			}
+			else
+			{
+				m_Vdata[index].init();
+			}
+
 			return index;
 		}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f5870c8..42e8fe0 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9836,6 +9836,18 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		{
 			++m_size;
 			m_hashTable[index] = hash;
+
+			// might be a removed entry, do not resurrect its old value
+			if ( m_type == SV_HASH_TABLE )
+			{
+				m_Vdata[index << 1].init();
+				m_Vdata[(index << 1) + 1].init();
+			}
+			else
+			{
+				m_Vdata[index].init();
+			}
+
 			return index;
 		}
 
-- 
2.43.0


From 8a21e8737d97b4d72629a0e020d954428cfc5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:38 +0000
Subject: [PATCH 12/98] fix: hash table count missed the entry that made the
 table grow

---
 discrete_src/vm/gc_object.cpp | 5 +++++
 src/wrench.cpp                | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index e58000a..d3d4ed8 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -330,6 +330,11 @@ tryAgain:
 
 		m_Vdata = newValues;
 
+		if ( hash != WRENCH_NULL_HASH )
+		{
+			++m_size; // the slot for it was claimed above
+		}
+
 		return getIndexOfHit( hash, true );
 	}
 }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 42e8fe0..5067e6c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9996,6 +9996,11 @@ tryAgain:
 
 		m_Vdata = newValues;
 
+		if ( hash != WRENCH_NULL_HASH )
+		{
+			++m_size; // the slot for it was claimed above
+		}
+
 		return getIndexOfHit( hash, true );
 	}
 }
-- 
2.43.0


From 3c47959ac0acb884052c6433ab5fb9ade9921233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:54 +0000
Subject: [PATCH 13/98] fix: indexing an existing hash entry by name replaced
 its key

---
 discrete_src/vm/index.cpp | 7 ++++++-
 src/wrench.cpp            | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 9f9e608..ae98753 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -71,10 +71,15 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 	if ( value->xtype == WR_EX_HASH_TABLE ) 
 	{
 		int element;
+		const uint32_t entries = value->va->m_size;
 		WRValue* entry = (WRValue*)(value->va->get(hash, &element));
 
+		if ( value->va->m_size != entries )
+		{
+			*(entry + 1) = *index; // first time it was registered
+		}
+
 		// need to create a hash ref
-		*(entry + 1) = *index; // might be the first time it was registered
 
 		target->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( element );
 		target->vb = (WRGCBase*)(value->va->m_Vdata) - 1;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 5067e6c..2c8cee8 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19676,10 +19676,15 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 	if ( value->xtype == WR_EX_HASH_TABLE ) 
 	{
 		int element;
+		const uint32_t entries = value->va->m_size;
 		WRValue* entry = (WRValue*)(value->va->get(hash, &element));
 
+		if ( value->va->m_size != entries )
+		{
+			*(entry + 1) = *index; // first time it was registered
+		}
+
 		// need to create a hash ref
-		*(entry + 1) = *index; // might be the first time it was registered
 
 		target->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( element );
 		target->vb = (WRGCBase*)(value->va->m_Vdata) - 1;
-- 
2.43.0


From 84bcb9a19bb11ea8314dfa50083d90e04f77cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 14/98] fix: hash::remove and hash::exists return 1 or 0 as
 documented

---
 discrete_src/lib/std_container.cpp | 2 +-
 src/wrench.cpp                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 0ee1cb1..e6c7cb6 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -364,7 +364,7 @@ void wr_hashExistEx( WRValue* stackTop, const int argn, bool remove )
 	WRValue* args = stackTop - argn;
 	if( (argn >= 2) && (H = wr_ifHash(args)) )
 	{
-		stackTop->p = H->va->exists( args[1].getHash(), remove );
+		stackTop->i = H->va->exists( args[1].getHash(), remove ) ? 1 : 0;
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2c8cee8..a8f063a 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23343,7 +23343,7 @@ void wr_hashExistEx( WRValue* stackTop, const int argn, bool remove )
 	WRValue* args = stackTop - argn;
 	if( (argn >= 2) && (H = wr_ifHash(args)) )
 	{
-		stackTop->p = H->va->exists( args[1].getHash(), remove );
+		stackTop->i = H->va->exists( args[1].getHash(), remove ) ? 1 : 0;
 	}
 }
 
-- 
2.43.0


From 1a37814a9b14a00f1ab2068fdc0434579c658d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:28 +0000
Subject: [PATCH 15/98] fix: removing an array element past the end shrank the
 array

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 5429e18..341be7a 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1206,7 +1206,7 @@ callFunction:
 				{
 					register0->va->exists( hash, true );
 				}
-				else if ( register0->xtype == WR_EX_ARRAY )
+				else if ( register0->xtype == WR_EX_ARRAY && hash < register0->va->m_size )
 				{
 					va = register0->va;
 					if (va->m_type == SV_VALUE )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a8f063a..f3fd207 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11392,7 +11392,7 @@ callFunction:
 				{
 					register0->va->exists( hash, true );
 				}
-				else if ( register0->xtype == WR_EX_ARRAY )
+				else if ( register0->xtype == WR_EX_ARRAY && hash < register0->va->m_size )
 				{
 					va = register0->va;
 					if (va->m_type == SV_VALUE )
-- 
2.43.0


From 197e1c784dff6edac4ec6c50d5934aec1983c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:23 +0000
Subject: [PATCH 16/98] fix: an empty statement, or break/continue without
 braces, popped a live stack value

---
 discrete_src/cc/cc.cpp | 16 ++++++++++++++++
 src/wrench.cpp         | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 69cfe8a..20a2c83 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -3194,6 +3194,12 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_breakTargets.tail() );
+
+			if ( !getToken(ex, ";"))
+			{
+				m_err = WR_ERR_unexpected_token;
+				return false;
+			}
 		}
 		else if ( !m_quoted && token == "continue" )
 		{
@@ -3204,6 +3210,16 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_continueTargets.tail() );
+
+			if ( !getToken(ex, ";"))
+			{
+				m_err = WR_ERR_unexpected_token;
+				return false;
+			}
+		}
+		else if ( !m_quoted && token == ";" )
+		{
+			// empty statement, there is no value to pop
 		}
 		else if ( !m_quoted && token == "goto" )
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f3fd207..10a924f 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -6232,6 +6232,12 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_breakTargets.tail() );
+
+			if ( !getToken(ex, ";"))
+			{
+				m_err = WR_ERR_unexpected_token;
+				return false;
+			}
 		}
 		else if ( !m_quoted && token == "continue" )
 		{
@@ -6242,6 +6248,16 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_continueTargets.tail() );
+
+			if ( !getToken(ex, ";"))
+			{
+				m_err = WR_ERR_unexpected_token;
+				return false;
+			}
+		}
+		else if ( !m_quoted && token == ";" )
+		{
+			// empty statement, there is no value to pop
 		}
 		else if ( !m_quoted && token == "goto" )
 		{
-- 
2.43.0


From 952d24d3c7c74cf52c5783d77f90e272d9cae46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:44 +0000
Subject: [PATCH 17/98] fix: a block nested directly in a block ended the outer
 one

---
 discrete_src/cc/cc.cpp | 13 ++++++++++++-
 src/wrench.cpp         | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 20a2c83..d16e4a8 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -3074,7 +3074,18 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 		
 		if ( !m_quoted && token == "{" )
 		{
-			return parseStatement( unitIndex, '}', opcodeToReturn );
+			if ( end == ';' )
+			{
+				return parseStatement( unitIndex, '}', opcodeToReturn );
+			}
+
+			// block inside a block, keep going after it
+			if ( !parseStatement(unitIndex, '}', opcodeToReturn) )
+			{
+				return false;
+			}
+
+			continue;
 		}
 
 		if ( !m_quoted && token == "return" )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 10a924f..49d10f0 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -6112,7 +6112,18 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 		
 		if ( !m_quoted && token == "{" )
 		{
-			return parseStatement( unitIndex, '}', opcodeToReturn );
+			if ( end == ';' )
+			{
+				return parseStatement( unitIndex, '}', opcodeToReturn );
+			}
+
+			// block inside a block, keep going after it
+			if ( !parseStatement(unitIndex, '}', opcodeToReturn) )
+			{
+				return false;
+			}
+
+			continue;
 		}
 
 		if ( !m_quoted && token == "return" )
-- 
2.43.0


From 6a244988b4b4b14f9dcf7705c9e873ff7af9dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:46 +0000
Subject: [PATCH 18/98] fix: a loop at the end of a switch fell through into
 the selection code

---
 discrete_src/cc/cc.cpp | 9 +++------
 src/wrench.cpp         | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index d16e4a8..f85ed15 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2789,12 +2789,9 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	}
 	
 	// make sure the last instruction is a break (jump) so the
-	// selection logic is skipped at the end of the last case/default
-	if ( !m_units[m_unitTop].bytecode.opcodes.size() 
-		 || (m_units[m_unitTop].bytecode.opcodes.size() && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_RelativeJump) )
-	{
-		addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
-	}
+	// selection logic is skipped at the end of the last case/default,
+	// a jump that is already there might belong to a loop that can exit
+	addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
 
 	// selection logic jumps HERE
 	setRelativeJumpTarget( m_units[m_unitTop].bytecode, selectionLogicPoint );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 49d10f0..0ddcf7c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5827,12 +5827,9 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	}
 	
 	// make sure the last instruction is a break (jump) so the
-	// selection logic is skipped at the end of the last case/default
-	if ( !m_units[m_unitTop].bytecode.opcodes.size() 
-		 || (m_units[m_unitTop].bytecode.opcodes.size() && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_RelativeJump) )
-	{
-		addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
-	}
+	// selection logic is skipped at the end of the last case/default,
+	// a jump that is already there might belong to a loop that can exit
+	addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
 
 	// selection logic jumps HERE
 	setRelativeJumpTarget( m_units[m_unitTop].bytecode, selectionLogicPoint );
-- 
2.43.0


From 6b31aaecb440626d13e27449051fc5c1473f780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:40 +0000
Subject: [PATCH 19/98] fix: compiler read before the start of its opcode list

---
 discrete_src/cc/optimizer.cpp | 6 +++---
 src/wrench.cpp                | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index 87d2ae7..4bb26ce 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -522,7 +522,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 			bytecode.opcodes += opcode;
 			return;
 		}
-		else if ( opcode == O_BinaryAddition && (a>2) )
+		else if ( opcode == O_BinaryAddition && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
@@ -566,7 +566,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 			return;
 		}
-		else if ( opcode == O_BinarySubtraction && (a>2) )
+		else if ( opcode == O_BinarySubtraction && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
@@ -609,7 +609,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 			return;
 		}
-		else if ( opcode == O_BinaryDivision && (a>2) )
+		else if ( opcode == O_BinaryDivision && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0ddcf7c..a46e6ac 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -8000,7 +8000,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 			bytecode.opcodes += opcode;
 			return;
 		}
-		else if ( opcode == O_BinaryAddition && (a>2) )
+		else if ( opcode == O_BinaryAddition && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
@@ -8044,7 +8044,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 			return;
 		}
-		else if ( opcode == O_BinarySubtraction && (a>2) )
+		else if ( opcode == O_BinarySubtraction && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
@@ -8087,7 +8087,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 			return;
 		}
-		else if ( opcode == O_BinaryDivision && (a>2) )
+		else if ( opcode == O_BinaryDivision && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
-- 
2.43.0


From e84dc429db1421a6149301cd180d140afd4b1991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:37 +0000
Subject: [PATCH 20/98] fix: negative and oversized array indexes wrote outside
 the array

---
 discrete_src/utils/utils.h |  1 +
 discrete_src/vm/index.cpp  | 11 +++++++++++
 discrete_src/vm/vm.cpp     |  6 +++---
 src/wrench.cpp             | 18 +++++++++++++++---
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/discrete_src/utils/utils.h b/discrete_src/utils/utils.h
index 29f258f..353ff85 100644
--- a/discrete_src/utils/utils.h
+++ b/discrete_src/utils/utils.h
@@ -456,6 +456,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 
 #define ENCODE_ARRAY_ELEMENT_TO_P2(E) ((E)<<8)
 #define DECODE_ARRAY_ELEMENT_FROM_P2(E) (((E)&0x1FFFFF00) >> 8)
+#define MAX_ARRAY_ELEMENT 0x1FFFFF // largest that can be encoded
 
 #define IS_EXARRAY_TYPE(P)   ((P)&0xC0)
 #define IS_EX_RAW_ARRAY_TYPE(P)   (((P)&0xE0) == WR_EX_RAW_ARRAY)
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index ae98753..91cfe3b 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -100,6 +100,12 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
+	if ( index->ui > MAX_ARRAY_ELEMENT )
+	{
+		target->init();
+		return;
+	}
+
 	// all we know is the value is not an array, so make it one
 	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -137,6 +143,11 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		// at this point we assume the value is an array, if it is not it
 		// will be converted into one
 
+		if ( index->ui > MAX_ARRAY_ELEMENT )
+		{
+			goto boundsFailed;
+		}
+
 		if ( IS_RAW_ARRAY(value->xtype) )
 		{
 			if ( index->ui >= (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(value->p2)) )
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 341be7a..341adb2 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1516,7 +1516,7 @@ compactLoadBZ8:
 
 			CASE(IndexLiteral8):
 			{
-				stackTop->i = READ_8_FROM_PC(pc++);
+				stackTop->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 indexLiteral:
 				stackTop->p2 = INIT_AS_INT;
 				register0 = stackTop - 1;
@@ -1544,7 +1544,7 @@ indexLiteral:
 #ifdef WRENCH_COMPACT
 indexTempLiteral:
 #endif
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 #ifdef WRENCH_COMPACT
 indexTempLiteralPostLoad:
 #endif
@@ -1575,7 +1575,7 @@ indexTempLiteralPostLoad:
 #ifdef WRENCH_COMPACT
 				goto indexTempLiteral;
 #else
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
 				CHECK_STACK;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a46e6ac..e6d9f87 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -462,6 +462,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 
 #define ENCODE_ARRAY_ELEMENT_TO_P2(E) ((E)<<8)
 #define DECODE_ARRAY_ELEMENT_FROM_P2(E) (((E)&0x1FFFFF00) >> 8)
+#define MAX_ARRAY_ELEMENT 0x1FFFFF // largest that can be encoded
 
 #define IS_EXARRAY_TYPE(P)   ((P)&0xC0)
 #define IS_EX_RAW_ARRAY_TYPE(P)   (((P)&0xE0) == WR_EX_RAW_ARRAY)
@@ -11726,7 +11727,7 @@ compactLoadBZ8:
 
 			CASE(IndexLiteral8):
 			{
-				stackTop->i = READ_8_FROM_PC(pc++);
+				stackTop->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 indexLiteral:
 				stackTop->p2 = INIT_AS_INT;
 				register0 = stackTop - 1;
@@ -11754,7 +11755,7 @@ indexLiteral:
 #ifdef WRENCH_COMPACT
 indexTempLiteral:
 #endif
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 #ifdef WRENCH_COMPACT
 indexTempLiteralPostLoad:
 #endif
@@ -11785,7 +11786,7 @@ indexTempLiteralPostLoad:
 #ifdef WRENCH_COMPACT
 				goto indexTempLiteral;
 #else
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
 				CHECK_STACK;
@@ -19729,6 +19730,12 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
+	if ( index->ui > MAX_ARRAY_ELEMENT )
+	{
+		target->init();
+		return;
+	}
+
 	// all we know is the value is not an array, so make it one
 	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -19766,6 +19773,11 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		// at this point we assume the value is an array, if it is not it
 		// will be converted into one
 
+		if ( index->ui > MAX_ARRAY_ELEMENT )
+		{
+			goto boundsFailed;
+		}
+
 		if ( IS_RAW_ARRAY(value->xtype) )
 		{
 			if ( index->ui >= (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(value->p2)) )
-- 
2.43.0


From 9a8ff43839576798c98a4e18e0f5077317ab052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:35 +0000
Subject: [PATCH 21/98] fix: expressions with several pending operands combined
 the wrong ones

---
 discrete_src/cc/cc.cpp | 53 ++++++++++++++++++++---------------------
 discrete_src/cc/cc.h   |  1 +
 src/wrench.cpp         | 54 +++++++++++++++++++++---------------------
 3 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index f85ed15..cf03288 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1081,6 +1081,29 @@ void WRExpression::swapWithTop( int stackPosition, bool addOpcodes )
 	context[swapWith].stackPosition = 0;
 }
 
+//------------------------------------------------------------------------------
+void WRExpression::swapTwoToTop( int first, int second )
+{
+	// exactly what the opcode does, in the same order: swap first with
+	// the top, then swap second (from wherever it is NOW) with the slot
+	// under the top
+
+	unsigned char pos = context[first].stackPosition + 1;
+	WRCompilationContext::pushOpcode( bytecode, O_SwapTwoToTop );
+	WRCompilationContext::pushData( bytecode, &pos, 1 );
+	swapWithTop( context[first].stackPosition, false );
+
+	const int from = context[second].stackPosition;
+	pos = from + 1;
+	WRCompilationContext::pushData( bytecode, &pos, 1 );
+	if ( from != 1 )
+	{
+		swapWithTop( 1, false );
+		swapWithTop( from, false );
+		swapWithTop( 1, false );
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRCompilationContext::resolveExpression( WRExpression& expression )
 {
@@ -1222,15 +1245,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				// first and second are both loaded but neither
 				// is in the correct position
 
-				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-				unsigned char pos = expression.context[first].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-				pos = expression.context[second].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-
-				expression.swapWithTop( expression.context[second].stackPosition, false );
-				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapTwoToTop( first, second );
 			}
 
 			appendBytecode( expression.bytecode, expression.context[o].bytecode ); // apply operator
@@ -1318,30 +1333,14 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				else
 				{
 					// can still do it in one opcode
-					
-					WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-					unsigned char pos = expression.context[first].stackPosition + 1;
-					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					pos = 2;
-					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					
-					expression.swapWithTop( 1, false );
-					expression.swapWithTop( expression.context[first].stackPosition, false );
+					expression.swapTwoToTop( first, second );
 				}
 			}
 			else
 			{
 				// first and second are both loaded but neither is in the correct position
 
-				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-				unsigned char pos = expression.context[first].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-				pos = expression.context[second].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-
-				expression.swapWithTop( expression.context[second].stackPosition, false );
-				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapTwoToTop( first, second );
 			}
 
 			if ( useAlt )
diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index d6e5ebd..d283181 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -329,6 +329,7 @@ public:
 
 	//------------------------------------------------------------------------------
 	void swapWithTop( int stackPosition, bool addOpcodes =true );
+	void swapTwoToTop( int first, int second );
 	
 	WRExpression() { reset(); }
 	WRExpression( WRarray<WRNamespaceLookup>& localSpace, bool isStructSpace )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index e6d9f87..d5e82f4 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -2095,6 +2095,7 @@ public:
 
 	//------------------------------------------------------------------------------
 	void swapWithTop( int stackPosition, bool addOpcodes =true );
+	void swapTwoToTop( int first, int second );
 	
 	WRExpression() { reset(); }
 	WRExpression( WRarray<WRNamespaceLookup>& localSpace, bool isStructSpace )
@@ -4120,6 +4121,29 @@ void WRExpression::swapWithTop( int stackPosition, bool addOpcodes )
 	context[swapWith].stackPosition = 0;
 }
 
+//------------------------------------------------------------------------------
+void WRExpression::swapTwoToTop( int first, int second )
+{
+	// exactly what the opcode does, in the same order: swap first with
+	// the top, then swap second (from wherever it is NOW) with the slot
+	// under the top
+
+	unsigned char pos = context[first].stackPosition + 1;
+	WRCompilationContext::pushOpcode( bytecode, O_SwapTwoToTop );
+	WRCompilationContext::pushData( bytecode, &pos, 1 );
+	swapWithTop( context[first].stackPosition, false );
+
+	const int from = context[second].stackPosition;
+	pos = from + 1;
+	WRCompilationContext::pushData( bytecode, &pos, 1 );
+	if ( from != 1 )
+	{
+		swapWithTop( 1, false );
+		swapWithTop( from, false );
+		swapWithTop( 1, false );
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRCompilationContext::resolveExpression( WRExpression& expression )
 {
@@ -4261,15 +4285,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				// first and second are both loaded but neither
 				// is in the correct position
 
-				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-				unsigned char pos = expression.context[first].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-				pos = expression.context[second].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-
-				expression.swapWithTop( expression.context[second].stackPosition, false );
-				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapTwoToTop( first, second );
 			}
 
 			appendBytecode( expression.bytecode, expression.context[o].bytecode ); // apply operator
@@ -4357,30 +4373,14 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				else
 				{
 					// can still do it in one opcode
-					
-					WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-					unsigned char pos = expression.context[first].stackPosition + 1;
-					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					pos = 2;
-					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					
-					expression.swapWithTop( 1, false );
-					expression.swapWithTop( expression.context[first].stackPosition, false );
+					expression.swapTwoToTop( first, second );
 				}
 			}
 			else
 			{
 				// first and second are both loaded but neither is in the correct position
 
-				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-				unsigned char pos = expression.context[first].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-				pos = expression.context[second].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-
-				expression.swapWithTop( expression.context[second].stackPosition, false );
-				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapTwoToTop( first, second );
 			}
 
 			if ( useAlt )
-- 
2.43.0


From d3d8e5f379bf39b9b6eee074ea7f5de65955dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:43 +0000
Subject: [PATCH 22/98] fix: hash initializer kept a reference to the element
 it was given

---
 discrete_src/vm/operations.cpp | 4 ++--
 src/wrench.cpp                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index deb8ccb..f045132 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -361,8 +361,8 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 
 	WRValue *entry = (WRValue *)table->va->get( index->getHash() );
 
-	*entry++ = *value;
-	*entry = *index;
+	*entry++ = value->deref();
+	*entry = index->deref();
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d5e82f4..81c25c3 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18295,8 +18295,8 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 
 	WRValue *entry = (WRValue *)table->va->get( index->getHash() );
 
-	*entry++ = *value;
-	*entry = *index;
+	*entry++ = value->deref();
+	*entry = index->deref();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 5a977e7e9a88cc107655d323e06f10d40a2c5887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:01 +0000
Subject: [PATCH 23/98] fix: str::strlen of a hash or struct member returned 0

---
 discrete_src/lib/std_string.cpp | 5 +----
 src/wrench.cpp                  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 5b5651a..ccd2127 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -30,10 +30,7 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 int wr_strlenEx( WRValue* val )
 {
-	if ( val->type == WR_REF )
-	{
-		return wr_strlenEx( val->r );
-	}
+	val = &(val->deref());
 
 	return (val->xtype == WR_EX_ARRAY && val->va->m_type == SV_CHAR) ? val->va->m_size :  0;
 }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 81c25c3..d4e1be9 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21525,10 +21525,7 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 int wr_strlenEx( WRValue* val )
 {
-	if ( val->type == WR_REF )
-	{
-		return wr_strlenEx( val->r );
-	}
+	val = &(val->deref());
 
 	return (val->xtype == WR_EX_ARRAY && val->va->m_type == SV_CHAR) ? val->va->m_size :  0;
 }
-- 
2.43.0


From b4bdc69d41e3bdddb2f687b16c9a40ccc0c902fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 24/98] fix: the most negative integer printed as garbage

---
 discrete_src/lib/std.cpp | 4 ++--
 src/wrench.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 7c63678..217b43d 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -93,11 +93,11 @@ int wr_itoa( int i, char* string, size_t len )
 {
 	char buf[12];
 	size_t pos = 0;
-	int val;
+	unsigned int val;
 	if ( i < 0 )
 	{
 		string[pos++] = '-';
-		val = -i;
+		val = 0 - (unsigned int)i; // INT_MIN has no positive counterpart
 	}
 	else
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d4e1be9..5287a5e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20009,11 +20009,11 @@ int wr_itoa( int i, char* string, size_t len )
 {
 	char buf[12];
 	size_t pos = 0;
-	int val;
+	unsigned int val;
 	if ( i < 0 )
 	{
 		string[pos++] = '-';
-		val = -i;
+		val = 0 - (unsigned int)i; // INT_MIN has no positive counterpart
 	}
 	else
 	{
-- 
2.43.0


From 984a0226b992440aa51469433aeeb32e4c765bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:08 +0000
Subject: [PATCH 25/98] fix: named struct initializer with a nested expression
 hit the wrong member

---
 discrete_src/cc/cc.cpp         |  6 ++----
 discrete_src/cc/cc.h           |  3 ++-
 discrete_src/cc/expression.cpp |  8 +++++---
 src/wrench.cpp                 | 17 +++++++++--------
 4 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index cf03288..5f307a4 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1589,13 +1589,11 @@ bool WRCompilationContext::pushObjectTable( WRExpressionContext& context,
 			char end = parseExpression( nex );
 			m_needVar = v;
 
-			m_parsingNew = false;
-
 			if ( nex.bytecode.all.size() )
 			{
 				appendBytecode( context.bytecode, nex.bytecode );
 
-				if ( m_newHashValue )
+				if ( nex.newHashValue )
 				{
 					if ( byOrder )
 					{
@@ -1606,7 +1604,7 @@ bool WRCompilationContext::pushObjectTable( WRExpressionContext& context,
 					
 					pushOpcode( context.bytecode, O_AssignToObjectTableByHash );
 					uint8_t dat[4];
-					pushData( context.bytecode, wr_pack32(m_newHashValue, dat), 4 );
+					pushData( context.bytecode, wr_pack32(nex.newHashValue, dat), 4 );
 				}
 				else
 				{
diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index d283181..24d116a 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -268,6 +268,7 @@ public:
 	WRBytecode bytecode;
 	bool lValue;
 	bool allowFunctionNameHashLiteral;
+	uint32_t newHashValue; // hash of "name" in a "{ name = <this> }" initializer
 
 	//------------------------------------------------------------------------------
 	void pushToStack( int index )
@@ -348,6 +349,7 @@ public:
 		bytecode.clear();
 		lValue = false;
 		allowFunctionNameHashLiteral = false;
+		newHashValue = 0;
 	}
 };
 
@@ -507,7 +509,6 @@ private:
 	bool m_parsingNew;
 	bool m_quoted;
 
-	uint32_t m_newHashValue;
 	
 	int m_unitTop;
 	WRarray<WRUnitContext> m_units;
diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index 4dcd442..d11a364 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -62,7 +62,9 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 	int depth = 0;
 	char end = 0;
 
-	m_newHashValue = 0;
+	// only applies to this expression, not to the ones nested in it
+	const bool parsingNew = m_parsingNew;
+	m_parsingNew = false;
 
 	for(;;)
 	{
@@ -506,11 +508,11 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 					return 0;
 				}
 
-				if ( m_parsingNew )
+				if ( parsingNew )
 				{
 					if ( token == "=" )
 					{
-						m_newHashValue = wr_hashStr( label );
+						expression.newHashValue = wr_hashStr( label );
 
 						continue;
 //						getToken(expression.context[depth]) );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 5287a5e..816a858 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -2034,6 +2034,7 @@ public:
 	WRBytecode bytecode;
 	bool lValue;
 	bool allowFunctionNameHashLiteral;
+	uint32_t newHashValue; // hash of "name" in a "{ name = <this> }" initializer
 
 	//------------------------------------------------------------------------------
 	void pushToStack( int index )
@@ -2114,6 +2115,7 @@ public:
 		bytecode.clear();
 		lValue = false;
 		allowFunctionNameHashLiteral = false;
+		newHashValue = 0;
 	}
 };
 
@@ -2273,7 +2275,6 @@ private:
 	bool m_parsingNew;
 	bool m_quoted;
 
-	uint32_t m_newHashValue;
 	
 	int m_unitTop;
 	WRarray<WRUnitContext> m_units;
@@ -4629,13 +4630,11 @@ bool WRCompilationContext::pushObjectTable( WRExpressionContext& context,
 			char end = parseExpression( nex );
 			m_needVar = v;
 
-			m_parsingNew = false;
-
 			if ( nex.bytecode.all.size() )
 			{
 				appendBytecode( context.bytecode, nex.bytecode );
 
-				if ( m_newHashValue )
+				if ( nex.newHashValue )
 				{
 					if ( byOrder )
 					{
@@ -4646,7 +4645,7 @@ bool WRCompilationContext::pushObjectTable( WRExpressionContext& context,
 					
 					pushOpcode( context.bytecode, O_AssignToObjectTableByHash );
 					uint8_t dat[4];
-					pushData( context.bytecode, wr_pack32(m_newHashValue, dat), 4 );
+					pushData( context.bytecode, wr_pack32(nex.newHashValue, dat), 4 );
 				}
 				else
 				{
@@ -6925,7 +6924,9 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 	int depth = 0;
 	char end = 0;
 
-	m_newHashValue = 0;
+	// only applies to this expression, not to the ones nested in it
+	const bool parsingNew = m_parsingNew;
+	m_parsingNew = false;
 
 	for(;;)
 	{
@@ -7369,11 +7370,11 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 					return 0;
 				}
 
-				if ( m_parsingNew )
+				if ( parsingNew )
 				{
 					if ( token == "=" )
 					{
-						m_newHashValue = wr_hashStr( label );
+						expression.newHashValue = wr_hashStr( label );
 
 						continue;
 //						getToken(expression.context[depth]) );
-- 
2.43.0


From c4601028681959ebd9aee5565929f85b556236c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:32 +0000
Subject: [PATCH 26/98] fix: assigning to a parameter could change the caller's
 variable

---
 discrete_src/vm/vm.cpp | 7 +++++++
 src/wrench.cpp         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 341adb2..0c8da99 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1020,6 +1020,13 @@ CallFunctionByHashAndPop_continue:
 				pc += READ_8_FROM_PC(pc);
 callFunction:
 				
+				// arguments are passed by value, a callee must not be able to
+				// reach the variable or element they were loaded from
+				for( int a=1; a<=args; ++a )
+				{
+					*(stackTop - a) = (stackTop - a)->deref();
+				}
+
 				// rectify arg count?
 				if ( args != function->arguments )
 				{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 816a858..79db9a2 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11232,6 +11232,13 @@ CallFunctionByHashAndPop_continue:
 				pc += READ_8_FROM_PC(pc);
 callFunction:
 				
+				// arguments are passed by value, a callee must not be able to
+				// reach the variable or element they were loaded from
+				for( int a=1; a<=args; ++a )
+				{
+					*(stackTop - a) = (stackTop - a)->deref();
+				}
+
 				// rectify arg count?
 				if ( args != function->arguments )
 				{
-- 
2.43.0


From 6fb6dc9f1c03ecd8df099f26adf84733c37ad56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:51 +0000
Subject: [PATCH 27/98] fix: string literals holding punctuation were parsed as
 that punctuation

---
 discrete_src/cc/cc.cpp         |  8 ++++----
 discrete_src/cc/expression.cpp |  6 +++---
 src/wrench.cpp                 | 14 +++++++-------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 5f307a4..fc265f4 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1674,7 +1674,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 
 		bool subTableValue = false;
 
-		if ( token == '{' )
+		if ( !m_quoted && token == '{' )
 		{
 			subTableValue = true;
 			if ( parseInitializer(expression, depth) == -1 )
@@ -1689,7 +1689,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 			continue;
 		}
 	
-		if ( token == ',' )
+		if ( !m_quoted && token == ',' )
 		{
 			if ( initializer == 0 )
 			{
@@ -1741,7 +1741,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 				return -1;
 			}
 
-			if ( token == '{' )
+			if ( !m_quoted && token == '{' )
 			{
 				if ( parseInitializer(expression, depth) == -1 )
 				{
@@ -3052,7 +3052,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			break;
 		}
 
-		if ( token[0] == end )
+		if ( !m_quoted && token[0] == end )
 		{
 			break;
 		}
diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index d11a364..c021b9d 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -382,12 +382,12 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 				m_err = WR_ERR_unexpected_EOF;
 				return 0;
 			}
-			else if (token == ")")
+			else if ( !m_quoted && token == ")" )
 			{
 				m_err = WR_ERR_empty_parens;
 				return 0;
 			}
-			else if ( token == "int" )
+			else if ( !m_quoted && token == "int" )
 			{
 				if ( !getToken(expression.context[depth], ")") )
 				{
@@ -397,7 +397,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 				operatorFound( WRstr("@i"), expression.context, depth );
 			}
-			else if ( token == "float" )
+			else if ( !m_quoted && token == "float" )
 			{
 				if ( !getToken(expression.context[depth], ")") )
 				{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 79db9a2..caf26f2 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4715,7 +4715,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 
 		bool subTableValue = false;
 
-		if ( token == '{' )
+		if ( !m_quoted && token == '{' )
 		{
 			subTableValue = true;
 			if ( parseInitializer(expression, depth) == -1 )
@@ -4730,7 +4730,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 			continue;
 		}
 	
-		if ( token == ',' )
+		if ( !m_quoted && token == ',' )
 		{
 			if ( initializer == 0 )
 			{
@@ -4782,7 +4782,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 				return -1;
 			}
 
-			if ( token == '{' )
+			if ( !m_quoted && token == '{' )
 			{
 				if ( parseInitializer(expression, depth) == -1 )
 				{
@@ -6093,7 +6093,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			break;
 		}
 
-		if ( token[0] == end )
+		if ( !m_quoted && token[0] == end )
 		{
 			break;
 		}
@@ -7244,12 +7244,12 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 				m_err = WR_ERR_unexpected_EOF;
 				return 0;
 			}
-			else if (token == ")")
+			else if ( !m_quoted && token == ")" )
 			{
 				m_err = WR_ERR_empty_parens;
 				return 0;
 			}
-			else if ( token == "int" )
+			else if ( !m_quoted && token == "int" )
 			{
 				if ( !getToken(expression.context[depth], ")") )
 				{
@@ -7259,7 +7259,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 				operatorFound( WRstr("@i"), expression.context, depth );
 			}
-			else if ( token == "float" )
+			else if ( !m_quoted && token == "float" )
 			{
 				if ( !getToken(expression.context[depth], ")") )
 				{
-- 
2.43.0


From 7e43f963be9f298f285fcfd1c7d52acf25dc4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 28/98] fix: foreach variables stayed bound to the container's
 memory

---
 discrete_src/vm/vm.cpp | 10 ++++------
 src/wrench.cpp         | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 0c8da99..b4b36d6 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -44,12 +44,11 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 				
 				element <<= 1;
 
-				value->p2 = INIT_AS_REF;
-				value->r = iterator->va->m_Vdata + element;
+				// take the value, a reference would outlive the table
+				*value = iterator->va->m_Vdata[element];
 				if ( key )
 				{
-					key->p2 = INIT_AS_REF;
-					key->r = iterator->va->m_Vdata + element + 1;
+					*key = iterator->va->m_Vdata[element + 1];
 				}
 				
 				return true;
@@ -73,8 +72,7 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 
 		if ( iterator->va->m_type == SV_VALUE )
 		{
-			value->p2 = INIT_AS_REF;
-			value->r = iterator->va->m_Vdata + element;
+			*value = iterator->va->m_Vdata[element];
 		}
 		else if ( iterator->va->m_type == SV_CHAR )
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index caf26f2..b52b6a5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10256,12 +10256,11 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 				
 				element <<= 1;
 
-				value->p2 = INIT_AS_REF;
-				value->r = iterator->va->m_Vdata + element;
+				// take the value, a reference would outlive the table
+				*value = iterator->va->m_Vdata[element];
 				if ( key )
 				{
-					key->p2 = INIT_AS_REF;
-					key->r = iterator->va->m_Vdata + element + 1;
+					*key = iterator->va->m_Vdata[element + 1];
 				}
 				
 				return true;
@@ -10285,8 +10284,7 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 
 		if ( iterator->va->m_type == SV_VALUE )
 		{
-			value->p2 = INIT_AS_REF;
-			value->r = iterator->va->m_Vdata + element;
+			*value = iterator->va->m_Vdata[element];
 		}
 		else if ( iterator->va->m_type == SV_CHAR )
 		{
-- 
2.43.0


From 6fff6adbcd03953d311101513eb1ba534a515998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:38 +0000
Subject: [PATCH 29/98] fix: concatenating a local with a global string
 reversed them

---
 discrete_src/cc/optimizer.cpp | 11 ++---------
 src/wrench.cpp                | 11 ++---------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index 4bb26ce..e3efc0e 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -533,15 +533,8 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 				bytecode.all.shave(1);
 				bytecode.opcodes.clear();
 			}
-			else if ( bytecode.opcodes[o] == O_LoadFromLocal
-					  && bytecode.opcodes[o-1] == O_LoadFromGlobal )
-			{
-				bytecode.all[ a - 3 ] = O_GLBinaryAddition;
-				bytecode.all[ a - 1 ] = bytecode.all[ a - 2 ];
-				bytecode.all[ a - 2 ] = bytecode.all[ a ];
-				bytecode.all.shave(1);
-				bytecode.opcodes.clear();
-			}
+			// local + global is not swapped to use the opcode below, addition
+			// does not commute when it concatenates strings
 			else if ( bytecode.opcodes[o] == O_LoadFromGlobal
 					  && bytecode.opcodes[o-1] == O_LoadFromLocal )
 			{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b52b6a5..de33e36 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -8013,15 +8013,8 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 				bytecode.all.shave(1);
 				bytecode.opcodes.clear();
 			}
-			else if ( bytecode.opcodes[o] == O_LoadFromLocal
-					  && bytecode.opcodes[o-1] == O_LoadFromGlobal )
-			{
-				bytecode.all[ a - 3 ] = O_GLBinaryAddition;
-				bytecode.all[ a - 1 ] = bytecode.all[ a - 2 ];
-				bytecode.all[ a - 2 ] = bytecode.all[ a ];
-				bytecode.all.shave(1);
-				bytecode.opcodes.clear();
-			}
+			// local + global is not swapped to use the opcode below, addition
+			// does not commute when it concatenates strings
 			else if ( bytecode.opcodes[o] == O_LoadFromGlobal
 					  && bytecode.opcodes[o-1] == O_LoadFromLocal )
 			{
-- 
2.43.0


From b9aa893680ca65914fd73835d4dcbb3659d88bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:53 +0000
Subject: [PATCH 30/98] fix: a function ending in a conditional return ran off
 its end

---
 discrete_src/cc/cc.cpp | 9 +++------
 src/wrench.cpp         | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index fc265f4..a563f9b 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1928,12 +1928,9 @@ bool WRCompilationContext::parseUnit( bool isStruct, int parentUnitIndex )
 		
 	parseStatement( m_unitTop, '}', O_Return );
 
-	if ( !m_units[m_unitTop].bytecode.opcodes.size()
-		 || (m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_Return
-			 && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_ReturnZero) )
-	{
-		pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
-	}
+	// even if the last opcode was a return there can be a jump to the
+	// end of the function, over that return
+	pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
 
 	m_unitTop = previousIndex;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index de33e36..0e07bfa 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4969,12 +4969,9 @@ bool WRCompilationContext::parseUnit( bool isStruct, int parentUnitIndex )
 		
 	parseStatement( m_unitTop, '}', O_Return );
 
-	if ( !m_units[m_unitTop].bytecode.opcodes.size()
-		 || (m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_Return
-			 && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_ReturnZero) )
-	{
-		pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
-	}
+	// even if the last opcode was a return there can be a jump to the
+	// end of the function, over that return
+	pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
 
 	m_unitTop = previousIndex;
 
-- 
2.43.0


From 81c2892f5c98508e9bab68923f5547a64e56d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:01 +0000
Subject: [PATCH 31/98] fix: optimizer treated opcodes as adjacent when the
 code between them had been forgotten

---
 discrete_src/cc/cc.h            |  4 ++--
 discrete_src/cc/opcode_stream.h | 10 +++++++++-
 discrete_src/cc/optimizer.cpp   |  9 +++++++++
 src/wrench.cpp                  | 23 ++++++++++++++++++++---
 4 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index 24d116a..2fa1a9f 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -193,8 +193,8 @@ struct WRBytecode
 	
 	void clear()
 	{
-		all.clear();
-		opcodes.clear();
+		all.restart();
+		opcodes.restart();
 		isStructSpace = false;
 		localSpace.clear();
 		
diff --git a/discrete_src/cc/opcode_stream.h b/discrete_src/cc/opcode_stream.h
index 2be15e0..786ad70 100644
--- a/discrete_src/cc/opcode_stream.h
+++ b/discrete_src/cc/opcode_stream.h
@@ -30,10 +30,11 @@ SOFTWARE.
 class WROpcodeStream
 {
 public:
-	WROpcodeStream() { m_buf = 0; clear(); }
+	WROpcodeStream() { m_buf = 0; clear(); m_partial = false; }
 	~WROpcodeStream() { clear(); }
 	WROpcodeStream& clear()
 	{
+		m_partial = true;
 		m_len = 0;
 		g_free( m_buf );
 		m_buf = 0;
@@ -46,6 +47,11 @@ public:
 		return m_len; 
 	}
 
+	// true if contents were discarded at some point, so what is here now
+	// is only the tail of what was pushed
+	bool isPartial() const { return m_partial; }
+	void restart() { clear(); m_partial = false; }
+
 	WROpcodeStream (const WROpcodeStream &other ) { m_buf = 0; *this = other; }
 	WROpcodeStream& operator = ( const WROpcodeStream& str )
 	{
@@ -54,6 +60,7 @@ public:
 		{
 			*this += str;
 		}
+		m_partial = str.m_partial;
 		return *this;
 	}
 
@@ -108,6 +115,7 @@ private:
 	unsigned char *m_buf;
 	unsigned int m_len;
 	unsigned int m_bufLen;
+	bool m_partial;
 };
 
 #endif
diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index e3efc0e..d7725f8 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -1389,6 +1389,7 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	if ( bytecode.all.size() > 1
 		 && bytecode.opcodes.size() > 0
 		 && addMe.opcodes.size() == 1
+		 && !addMe.opcodes.isPartial()
 		 && addMe.all.size() > 2
 		 && addMe.gotoSource.count() == 0
 		 && addMe.opcodes[0] == O_IndexLiteral16
@@ -1406,6 +1407,7 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	else if ( bytecode.all.size() > 1
 			  && bytecode.opcodes.size() > 0
 			  && addMe.opcodes.size() == 1
+			  && !addMe.opcodes.isPartial()
 			  && addMe.all.size() > 2
 			  && addMe.gotoSource.count() == 0
 			  && addMe.opcodes[0] == O_IndexLiteral16
@@ -1423,6 +1425,7 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	else if ( bytecode.all.size() > 1
 			  && bytecode.opcodes.size() > 0
 			  && addMe.opcodes.size() == 1
+			  && !addMe.opcodes.isPartial()
 			  && addMe.all.size() > 1
 			  && addMe.gotoSource.count() == 0
 			  && addMe.opcodes[0] == O_IndexLiteral8
@@ -1440,6 +1443,7 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	else if ( bytecode.all.size() > 1
 			  && bytecode.opcodes.size() > 0
 			  && addMe.opcodes.size() == 1
+			  && !addMe.opcodes.isPartial()
 			  && addMe.all.size() > 1
 			  && addMe.gotoSource.count() == 0
 			  && addMe.opcodes[0] == O_IndexLiteral8
@@ -1585,6 +1589,11 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	resolveRelativeJumps( addMe );
 
 	bytecode.all += addMe.all;
+	if ( addMe.opcodes.isPartial() )
+	{
+		// the opcodes already here do not directly precede the ones being added
+		bytecode.opcodes.clear();
+	}
 	bytecode.opcodes += addMe.opcodes;
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0e07bfa..8fd8c90 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1681,10 +1681,11 @@ SOFTWARE.
 class WROpcodeStream
 {
 public:
-	WROpcodeStream() { m_buf = 0; clear(); }
+	WROpcodeStream() { m_buf = 0; clear(); m_partial = false; }
 	~WROpcodeStream() { clear(); }
 	WROpcodeStream& clear()
 	{
+		m_partial = true;
 		m_len = 0;
 		g_free( m_buf );
 		m_buf = 0;
@@ -1697,6 +1698,11 @@ public:
 		return m_len; 
 	}
 
+	// true if contents were discarded at some point, so what is here now
+	// is only the tail of what was pushed
+	bool isPartial() const { return m_partial; }
+	void restart() { clear(); m_partial = false; }
+
 	WROpcodeStream (const WROpcodeStream &other ) { m_buf = 0; *this = other; }
 	WROpcodeStream& operator = ( const WROpcodeStream& str )
 	{
@@ -1705,6 +1711,7 @@ public:
 		{
 			*this += str;
 		}
+		m_partial = str.m_partial;
 		return *this;
 	}
 
@@ -1759,6 +1766,7 @@ private:
 	unsigned char *m_buf;
 	unsigned int m_len;
 	unsigned int m_bufLen;
+	bool m_partial;
 };
 
 #endif
@@ -1959,8 +1967,8 @@ struct WRBytecode
 	
 	void clear()
 	{
-		all.clear();
-		opcodes.clear();
+		all.restart();
+		opcodes.restart();
 		isStructSpace = false;
 		localSpace.clear();
 		
@@ -8866,6 +8874,7 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	if ( bytecode.all.size() > 1
 		 && bytecode.opcodes.size() > 0
 		 && addMe.opcodes.size() == 1
+		 && !addMe.opcodes.isPartial()
 		 && addMe.all.size() > 2
 		 && addMe.gotoSource.count() == 0
 		 && addMe.opcodes[0] == O_IndexLiteral16
@@ -8883,6 +8892,7 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	else if ( bytecode.all.size() > 1
 			  && bytecode.opcodes.size() > 0
 			  && addMe.opcodes.size() == 1
+			  && !addMe.opcodes.isPartial()
 			  && addMe.all.size() > 2
 			  && addMe.gotoSource.count() == 0
 			  && addMe.opcodes[0] == O_IndexLiteral16
@@ -8900,6 +8910,7 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	else if ( bytecode.all.size() > 1
 			  && bytecode.opcodes.size() > 0
 			  && addMe.opcodes.size() == 1
+			  && !addMe.opcodes.isPartial()
 			  && addMe.all.size() > 1
 			  && addMe.gotoSource.count() == 0
 			  && addMe.opcodes[0] == O_IndexLiteral8
@@ -8917,6 +8928,7 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	else if ( bytecode.all.size() > 1
 			  && bytecode.opcodes.size() > 0
 			  && addMe.opcodes.size() == 1
+			  && !addMe.opcodes.isPartial()
 			  && addMe.all.size() > 1
 			  && addMe.gotoSource.count() == 0
 			  && addMe.opcodes[0] == O_IndexLiteral8
@@ -9062,6 +9074,11 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 	resolveRelativeJumps( addMe );
 
 	bytecode.all += addMe.all;
+	if ( addMe.opcodes.isPartial() )
+	{
+		// the opcodes already here do not directly precede the ones being added
+		bytecode.opcodes.clear();
+	}
 	bytecode.opcodes += addMe.opcodes;
 }
 
-- 
2.43.0


From a072f2c89cf98fb2ca80c6a42026a98dfc6f7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:26 +0000
Subject: [PATCH 32/98] fix: contexts leaked their objects when the gc
 threshold was above 65535

---
 discrete_src/utils/utils.cpp | 2 +-
 src/wrench.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index a1c1a99..37ea268 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -485,7 +485,7 @@ void wr_destroyContextEx( WRContext* context )
 {
 	// g_free all memory allocations by forcing the gc to collect everything
 	context->globals = 0;
-	context->allocatedMemoryHint = (uint16_t)-1;
+	context->allocatedMemoryHint = 0xFFFFFFFF;
 	context->gc( 0 );
 
 	wr_freeGCChain( context->registry.m_nextGC );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8fd8c90..30f6245 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -13976,7 +13976,7 @@ void wr_destroyContextEx( WRContext* context )
 {
 	// g_free all memory allocations by forcing the gc to collect everything
 	context->globals = 0;
-	context->allocatedMemoryHint = (uint16_t)-1;
+	context->allocatedMemoryHint = 0xFFFFFFFF;
 	context->gc( 0 );
 
 	wr_freeGCChain( context->registry.m_nextGC );
-- 
2.43.0


From 8b6c72299fb8d76a95d246841c07189ff7a2ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 33/98] fix: a container that holds itself overflowed the host
 stack when collected

---
 discrete_src/vm/gc.cpp | 4 ++--
 src/wrench.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index f7968bb..bac0f34 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -27,6 +27,8 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 void WRContext::markBase( WRGCBase* svb )
 {
+	svb->m_flags |= GCFlag_Marked; // before descending, it might be part of a cycle
+
 	if ( svb->m_type == SV_VALUE )
 	{
 		WRValue* top = ((WRGCObject*)svb)->m_Vdata + ((WRGCObject*)svb)->m_size;
@@ -57,8 +59,6 @@ void WRContext::markBase( WRGCBase* svb )
 		// mark the referenced table so it is not collected
 		((WRGCBase*)svb)->m_referencedTable->m_flags |= GCFlag_Marked;
 	}
-
-	svb->m_flags |= GCFlag_Marked;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 30f6245..887c12b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10066,6 +10066,8 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 void WRContext::markBase( WRGCBase* svb )
 {
+	svb->m_flags |= GCFlag_Marked; // before descending, it might be part of a cycle
+
 	if ( svb->m_type == SV_VALUE )
 	{
 		WRValue* top = ((WRGCObject*)svb)->m_Vdata + ((WRGCObject*)svb)->m_size;
@@ -10096,8 +10098,6 @@ void WRContext::markBase( WRGCBase* svb )
 		// mark the referenced table so it is not collected
 		((WRGCBase*)svb)->m_referencedTable->m_flags |= GCFlag_Marked;
 	}
-
-	svb->m_flags |= GCFlag_Marked;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 73faf6cc753df05844ab9cc6d11f2efbde835ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:28 +0000
Subject: [PATCH 34/98] fix: loops that only made arrays or joined strings
 never collected garbage

---
 discrete_src/vm/vm.cpp | 2 ++
 src/wrench.cpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index b4b36d6..597a0f6 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1464,6 +1464,7 @@ hashIndexJump:
 			CASE(RelativeJump):
 			{
 				pc += READ_16_FROM_PC(pc);
+				context->gc( stackTop ); // every loop comes through here
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
@@ -1471,6 +1472,7 @@ hashIndexJump:
 			CASE(RelativeJump8):
 			{
 				pc += (int8_t)READ_8_FROM_PC(pc);
+				context->gc( stackTop );
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 887c12b..6145fc5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11683,6 +11683,7 @@ hashIndexJump:
 			CASE(RelativeJump):
 			{
 				pc += READ_16_FROM_PC(pc);
+				context->gc( stackTop ); // every loop comes through here
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
@@ -11690,6 +11691,7 @@ hashIndexJump:
 			CASE(RelativeJump8):
 			{
 				pc += (int8_t)READ_8_FROM_PC(pc);
+				context->gc( stackTop );
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
-- 
2.43.0


From e064582ae66bb247b26aa6885b79514773215c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:41 +0000
Subject: [PATCH 35/98] fix: assigning an initializer to an element replaced
 the whole container

---
 discrete_src/cc/cc.cpp | 6 +++++-
 src/wrench.cpp         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index a563f9b..9397971 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1648,7 +1648,11 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 		 && expression.context[0].type == EXTYPE_LABEL
 		 && expression.context[1].type == EXTYPE_OPERATION
 		 && expression.context[1].operation->opcode
-		 && expression.context[1].operation->opcode == O_Index )
+		 && expression.context[1].operation->opcode == O_Index
+		 && (expression.context[0].varSeen // "var name[size] =" or "name[] =", not an assignment to an element
+			 || !m_needVar
+			 || (expression.context[1].bytecode.opcodes.size()
+				 && expression.context[1].bytecode.opcodes[expression.context[1].bytecode.opcodes.size() - 1] == O_InitArray)) )
 	{
 		expression.context.remove( depth - 2, 1 );
 		depth -= 1;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6145fc5..150ef15 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4697,7 +4697,11 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 		 && expression.context[0].type == EXTYPE_LABEL
 		 && expression.context[1].type == EXTYPE_OPERATION
 		 && expression.context[1].operation->opcode
-		 && expression.context[1].operation->opcode == O_Index )
+		 && expression.context[1].operation->opcode == O_Index
+		 && (expression.context[0].varSeen // "var name[size] =" or "name[] =", not an assignment to an element
+			 || !m_needVar
+			 || (expression.context[1].bytecode.opcodes.size()
+				 && expression.context[1].bytecode.opcodes[expression.context[1].bytecode.opcodes.size() - 1] == O_InitArray)) )
 	{
 		expression.context.remove( depth - 2, 1 );
 		depth -= 1;
-- 
2.43.0


From 13b3901ddb009e98f15d16f3a3a324be7455b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:54 +0000
Subject: [PATCH 36/98] fix: list/queue/stack push stored a reference to the
 variable instead of its value

---
 discrete_src/lib/std_container.cpp | 4 ++--
 src/wrench.cpp                     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index e6c7cb6..6af8b93 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -283,7 +283,7 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 	const unsigned int where = A->va->m_size;
 
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1];
+	A->va->m_Vdata[where] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
@@ -298,7 +298,7 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1];
+	A->va->m_Vdata[0] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 150ef15..49e1bc5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23314,7 +23314,7 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 	const unsigned int where = A->va->m_size;
 
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1];
+	A->va->m_Vdata[where] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
@@ -23329,7 +23329,7 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1];
+	A->va->m_Vdata[0] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From e47fa87e0ce2fac5d722ad2701dca9c3349f332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 37/98] fix: array:: functions read and wrote out of bounds on
 out of range arguments

---
 discrete_src/lib/std_container.cpp | 23 ++++++++++++++++++++---
 src/wrench.cpp                     | 23 ++++++++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 6af8b93..ccf8615 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -65,9 +65,13 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 		if ( argn > 1 )
 		{
 			count = args[1].asInt();
+			if ( count > (MAX_ARRAY_ELEMENT + 1) )
+			{
+				count = 0;
+			}
 		}
 		
-		A->va = c->getSVA( count, SV_VALUE, false );
+		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
@@ -156,7 +160,10 @@ void wr_arrayRemove( WRValue* stackTop, const int argn, WRContext* c )
 		count = args[2].asInt();
 	}
 
-	wr_arrayRemoveEx( A, where, count, stackTop, c );
+	if ( count > 0 )
+	{
+		wr_arrayRemoveEx( A, where, count, stackTop, c );
+	}
 
 	*stackTop = *A;
 }
@@ -167,7 +174,7 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* A;
 	WRValue* args = stackTop - argn;
 
-	if( (argn < 1) || !(A = wr_ifValueArray(args)) )
+	if( (argn < 2) || !(A = wr_ifValueArray(args)) )
 	{
 		return;
 	}
@@ -187,6 +194,11 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
+	if ( !count || count > MAX_ARRAY_ELEMENT || (originalSize + count) > (MAX_ARRAY_ELEMENT + 1) )
+	{
+		return;
+	}
+
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
 
@@ -227,6 +239,11 @@ void wr_arrayInsert( WRValue* stackTop, const int argn, WRContext* c )
 		count = args[2].asInt();
 	}
 
+	if ( where > A->va->m_size )
+	{
+		where = A->va->m_size; // past the end is at the end
+	}
+
 	wr_arrayInsertEx( A, where, count, stackTop, c );
 
 	*stackTop = *A;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 49e1bc5..d922ac4 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23096,9 +23096,13 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 		if ( argn > 1 )
 		{
 			count = args[1].asInt();
+			if ( count > (MAX_ARRAY_ELEMENT + 1) )
+			{
+				count = 0;
+			}
 		}
 		
-		A->va = c->getSVA( count, SV_VALUE, false );
+		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
@@ -23187,7 +23191,10 @@ void wr_arrayRemove( WRValue* stackTop, const int argn, WRContext* c )
 		count = args[2].asInt();
 	}
 
-	wr_arrayRemoveEx( A, where, count, stackTop, c );
+	if ( count > 0 )
+	{
+		wr_arrayRemoveEx( A, where, count, stackTop, c );
+	}
 
 	*stackTop = *A;
 }
@@ -23198,7 +23205,7 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* A;
 	WRValue* args = stackTop - argn;
 
-	if( (argn < 1) || !(A = wr_ifValueArray(args)) )
+	if( (argn < 2) || !(A = wr_ifValueArray(args)) )
 	{
 		return;
 	}
@@ -23218,6 +23225,11 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
+	if ( !count || count > MAX_ARRAY_ELEMENT || (originalSize + count) > (MAX_ARRAY_ELEMENT + 1) )
+	{
+		return;
+	}
+
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
 
@@ -23258,6 +23270,11 @@ void wr_arrayInsert( WRValue* stackTop, const int argn, WRContext* c )
 		count = args[2].asInt();
 	}
 
+	if ( where > A->va->m_size )
+	{
+		where = A->va->m_size; // past the end is at the end
+	}
+
 	wr_arrayInsertEx( A, where, count, stackTop, c );
 
 	*stackTop = *A;
-- 
2.43.0


From d1f76cbf5f30256cdd03184b85473cf42b7f3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 38/98] fix: a table literal could not continue after a nested
 initializer

---
 discrete_src/cc/cc.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 9397971..25d6581 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1695,7 +1695,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 	
 		if ( !m_quoted && token == ',' )
 		{
-			if ( initializer == 0 )
+			if ( initializer == 0 && !inHashTable )
 			{
 				m_err = WR_ERR_bad_expression;
 				return -1;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d922ac4..e46036b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4744,7 +4744,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 	
 		if ( !m_quoted && token == ',' )
 		{
-			if ( initializer == 0 )
+			if ( initializer == 0 && !inHashTable )
 			{
 				m_err = WR_ERR_bad_expression;
 				return -1;
-- 
2.43.0


From 07d5b98464d1d1f23b20b56cdb76027baf89a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:26 +0000
Subject: [PATCH 39/98] fix: list/queue/stack peek into a temporary returned a
 reference to itself

---
 discrete_src/lib/std_container.cpp | 6 ++----
 src/wrench.cpp                     | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index ccf8615..c1c9ec9 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -95,8 +95,7 @@ void wr_arrayPeek( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER;// | ENCODE_ARRAY_ELEMENT_TO_P2( 0 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[0].deref(); // the array might be a temporary on the stack, so don't refer to it
 	}
 }
 
@@ -111,8 +110,7 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( A->va->m_size - 1 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[A->va->m_size - 1].deref();
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index e46036b..2df15ce 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23126,8 +23126,7 @@ void wr_arrayPeek( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER;// | ENCODE_ARRAY_ELEMENT_TO_P2( 0 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[0].deref(); // the array might be a temporary on the stack, so don't refer to it
 	}
 }
 
@@ -23142,8 +23141,7 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( A->va->m_size - 1 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[A->va->m_size - 1].deref();
 	}
 }
 
-- 
2.43.0


From 1b05d24ce2ed7761f1f4a8b87f96489db04a321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:09 +0000
Subject: [PATCH 40/98] fix: library function called as a statement could mark
 a stale value

---
 discrete_src/vm/vm.cpp | 2 ++
 src/wrench.cpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 597a0f6..0855dda 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1132,6 +1132,8 @@ callFunction:
 					return 0;
 				}
 
+				stackTop->init(); // the library might collect, don't leave something stale to be found
+
 				register1->lcb( stackTop, args, context );
 				pc += 4;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2df15ce..3a82c06 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11355,6 +11355,8 @@ callFunction:
 					return 0;
 				}
 
+				stackTop->init(); // the library might collect, don't leave something stale to be found
+
 				register1->lcb( stackTop, args, context );
 				pc += 4;
 
-- 
2.43.0


From 725b8b71faa543d4d0c71a8055efe149195c01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:09 +0000
Subject: [PATCH 41/98] fix: a table restored by deserialize, or made with a
 size hint, counts its entries

---
 discrete_src/utils/serializer.cpp | 1 +
 discrete_src/vm/gc_object.cpp     | 1 +
 src/wrench.cpp                    | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 3fc82fe..4a08304 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -235,6 +235,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 								return false;
 							}
 							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+							++value.va->m_size;
 						}
 					}
 					
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index d3d4ed8..cd8777b 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -65,6 +65,7 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	}
 	else
 	{
+		m_size = 0; // 'size' was only a hint, nothing is in it yet
 		growHash( WRENCH_NULL_HASH, size, &ret );
 	}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3a82c06..2faebbb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9768,6 +9768,7 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	}
 	else
 	{
+		m_size = 0; // 'size' was only a hint, nothing is in it yet
 		growHash( WRENCH_NULL_HASH, size, &ret );
 	}
 
@@ -15436,6 +15437,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 								return false;
 							}
 							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+							++value.va->m_size;
 						}
 					}
 					
-- 
2.43.0


From f935a9050d1119920cb276838265cc75bae2caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:26 +0000
Subject: [PATCH 42/98] fix: deserialize rejects tables whose size or slots are
 malformed

---
 discrete_src/utils/serializer.cpp | 28 +++++++++++++++++++++++++---
 src/wrench.cpp                    | 28 +++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 4a08304..7163bba 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -202,7 +202,15 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 					}
 
 					temp16 = wr_x16( temp16 );
-					
+
+					// must be one of the sizes a table can actually have
+					int t = 0;
+					for( ; c_primeTable[t] < temp16 && c_primeTable[t] < 49157; ++t );
+					if ( c_primeTable[t] != temp16 )
+					{
+						return false;
+					}
+
 					value.va = context->getSVA( temp16 - 1, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !value.va )
@@ -234,7 +242,16 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 							{
 								return false;
 							}
-							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+
+							// every key once, and only where it can be found
+							const uint32_t hash = value.va->m_Vdata[(i<<1)+1].getHash();
+							if ( hash == WRENCH_NULL_HASH
+								 || ((i + temp16 - (hash % temp16)) % temp16) > 4
+								 || value.va->exists(hash, false) )
+							{
+								return false;
+							}
+							value.va->m_hashTable[i] = hash;
 							++value.va->m_size;
 						}
 					}
@@ -267,5 +284,10 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 bool wr_deserialize( WRContext* context, WRValue& value, const char* buf, const int len )
 {
 	WRValueSerializer S( buf, len );
-	return wr_deserializeEx( value, S, context );
+	if ( !wr_deserializeEx(value, S, context) )
+	{
+		value.init(); // do not hand back a half-built value
+		return false;
+	}
+	return true;
 }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2faebbb..5732beb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -15404,7 +15404,15 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 					}
 
 					temp16 = wr_x16( temp16 );
-					
+
+					// must be one of the sizes a table can actually have
+					int t = 0;
+					for( ; c_primeTable[t] < temp16 && c_primeTable[t] < 49157; ++t );
+					if ( c_primeTable[t] != temp16 )
+					{
+						return false;
+					}
+
 					value.va = context->getSVA( temp16 - 1, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !value.va )
@@ -15436,7 +15444,16 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 							{
 								return false;
 							}
-							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+
+							// every key once, and only where it can be found
+							const uint32_t hash = value.va->m_Vdata[(i<<1)+1].getHash();
+							if ( hash == WRENCH_NULL_HASH
+								 || ((i + temp16 - (hash % temp16)) % temp16) > 4
+								 || value.va->exists(hash, false) )
+							{
+								return false;
+							}
+							value.va->m_hashTable[i] = hash;
 							++value.va->m_size;
 						}
 					}
@@ -15469,7 +15486,12 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 bool wr_deserialize( WRContext* context, WRValue& value, const char* buf, const int len )
 {
 	WRValueSerializer S( buf, len );
-	return wr_deserializeEx( value, S, context );
+	if ( !wr_deserializeEx(value, S, context) )
+	{
+		value.init(); // do not hand back a half-built value
+		return false;
+	}
+	return true;
 }
 /*******************************************************************************
 Copyright (c) 2026 Curt Hartung -- curt.hartung@gmail.com
-- 
2.43.0


From a9785ab57556a9397ec546b651a484f5829e5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:18 +0000
Subject: [PATCH 43/98] fix: a host call does not mark the stale slot above its
 arguments

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 0855dda..7a8edf0 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -724,7 +724,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		
 		pc = context->stopLocation;
 
-		context->gc( stackTop + 1 );
+		context->gc( stackTop );
 
 		goto callFunction;
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 5732beb..8d39538 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10948,7 +10948,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		
 		pc = context->stopLocation;
 
-		context->gc( stackTop + 1 );
+		context->gc( stackTop );
 
 		goto callFunction;
 	}
-- 
2.43.0


From bc576d2bd9309fe9c341b14aff3ad066b4ab52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:39 +0000
Subject: [PATCH 44/98] fix: serialize keeps the full size of arrays and
 strings above 65535, and reports a table member it cannot store

---
 discrete_src/utils/serializer.cpp | 60 ++++++++++++++++++++++++------
 discrete_src/utils/serializer.h   |  1 +
 src/wrench.cpp                    | 61 +++++++++++++++++++++++++------
 3 files changed, 98 insertions(+), 24 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 7163bba..448503a 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -24,6 +24,8 @@ SOFTWARE.
 
 #include "wrench.h"
 
+#define WR_SERIALIZE_LONG 0x80 // with the array type: a 32-bit size follows
+
 //------------------------------------------------------------------------------
 bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 {
@@ -53,9 +55,18 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 			{
 				case WR_EX_ARRAY:
 				{
-					serializer.write( &(temp = value.va->m_type), 1 );
-					temp16 = wr_x16( value.va->m_size );
-					serializer.write( (char*)&temp16, 2 );
+					if ( value.va->m_size > 0xFFFF ) // does not fit, flag it and write the full size
+					{
+						serializer.write( &(temp = (char)(value.va->m_type | WR_SERIALIZE_LONG)), 1 );
+						temp32 = wr_x32( value.va->m_size );
+						serializer.write( (char*)&temp32, 4 );
+					}
+					else
+					{
+						serializer.write( &(temp = value.va->m_type), 1 );
+						temp16 = wr_x16( value.va->m_size );
+						serializer.write( (char*)&temp16, 2 );
+					}
 
 					if ( value.va->m_type == SV_CHAR )
 					{
@@ -91,8 +102,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							wr_serializeEx( serializer, value.va->m_Vdata[i<<1] );
-							wr_serializeEx( serializer, value.va->m_Vdata[(i<<1) + 1] );
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1])
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1]) )
+							{
+								return false;
+							}
 						}
 					}
 
@@ -141,20 +155,42 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 			{
 				case WR_EX_ARRAY:
 				{
-					if ( !serializer.read(&temp, 1)  // type
-						 || !serializer.read((char *)&temp16, 2) ) // size
+					if ( !serializer.read(&temp, 1) ) // type
+					{
+						return false;
+					}
+
+					uint32_t size;
+					if ( temp & WR_SERIALIZE_LONG )
+					{
+						temp &= ~WR_SERIALIZE_LONG;
+						if ( !serializer.read((char *)&size, 4) )
+						{
+							return false;
+						}
+						size = wr_x32( size );
+					}
+					else
+					{
+						if ( !serializer.read((char *)&temp16, 2) )
+						{
+							return false;
+						}
+						size = wr_x16( temp16 );
+					}
+
+					if ( size > serializer.remaining() ) // every element takes at least a byte
 					{
 						return false;
 					}
 
-					temp16 = wr_x16( temp16 );
 					value.p2 = INIT_AS_ARRAY;
 					
 					switch( (uint8_t)temp )
 					{
 						case SV_CHAR:
 						{
-							value.va = context->getSVA( temp16, SV_CHAR, false );
+							value.va = context->getSVA( size, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 							if ( !value.va )
 							{
@@ -162,7 +198,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 								return false;
 							}
 #endif
-							if ( !serializer.read(value.va->m_SCdata, temp16) )
+							if ( !serializer.read(value.va->m_SCdata, size) )
 							{
 								return false;
 							}
@@ -171,7 +207,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 						case SV_VALUE:
 						{
-							value.va = context->getSVA( temp16, SV_VALUE, false );
+							value.va = context->getSVA( size, SV_VALUE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 							if ( !value.va )
 							{
@@ -179,7 +215,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 								return false;
 							}
 #endif
-							for( uint16_t i=0; i<temp16; ++i )
+							for( uint32_t i=0; i<size; ++i )
 							{
 								if ( !wr_deserializeEx(value.va->m_Vdata[i], serializer, context) )
 								{
diff --git a/discrete_src/utils/serializer.h b/discrete_src/utils/serializer.h
index 1188d71..5cd5cf5 100644
--- a/discrete_src/utils/serializer.h
+++ b/discrete_src/utils/serializer.h
@@ -68,6 +68,7 @@ public:
 	}
 	
 	int size() const { return m_pos; }
+	unsigned int remaining() const { return m_size - m_pos; } // when reading
 	const char* data() const { return m_buf; }
 
 	bool read( char* data, const int size )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8d39538..43eae46 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -552,6 +552,7 @@ public:
 	}
 	
 	int size() const { return m_pos; }
+	unsigned int remaining() const { return m_size - m_pos; } // when reading
 	const char* data() const { return m_buf; }
 
 	bool read( char* data, const int size )
@@ -15226,6 +15227,8 @@ SOFTWARE.
 
 #include "wrench.h"
 
+#define WR_SERIALIZE_LONG 0x80 // with the array type: a 32-bit size follows
+
 //------------------------------------------------------------------------------
 bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 {
@@ -15255,9 +15258,18 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 			{
 				case WR_EX_ARRAY:
 				{
-					serializer.write( &(temp = value.va->m_type), 1 );
-					temp16 = wr_x16( value.va->m_size );
-					serializer.write( (char*)&temp16, 2 );
+					if ( value.va->m_size > 0xFFFF ) // does not fit, flag it and write the full size
+					{
+						serializer.write( &(temp = (char)(value.va->m_type | WR_SERIALIZE_LONG)), 1 );
+						temp32 = wr_x32( value.va->m_size );
+						serializer.write( (char*)&temp32, 4 );
+					}
+					else
+					{
+						serializer.write( &(temp = value.va->m_type), 1 );
+						temp16 = wr_x16( value.va->m_size );
+						serializer.write( (char*)&temp16, 2 );
+					}
 
 					if ( value.va->m_type == SV_CHAR )
 					{
@@ -15293,8 +15305,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							wr_serializeEx( serializer, value.va->m_Vdata[i<<1] );
-							wr_serializeEx( serializer, value.va->m_Vdata[(i<<1) + 1] );
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1])
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1]) )
+							{
+								return false;
+							}
 						}
 					}
 
@@ -15343,20 +15358,42 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 			{
 				case WR_EX_ARRAY:
 				{
-					if ( !serializer.read(&temp, 1)  // type
-						 || !serializer.read((char *)&temp16, 2) ) // size
+					if ( !serializer.read(&temp, 1) ) // type
+					{
+						return false;
+					}
+
+					uint32_t size;
+					if ( temp & WR_SERIALIZE_LONG )
+					{
+						temp &= ~WR_SERIALIZE_LONG;
+						if ( !serializer.read((char *)&size, 4) )
+						{
+							return false;
+						}
+						size = wr_x32( size );
+					}
+					else
+					{
+						if ( !serializer.read((char *)&temp16, 2) )
+						{
+							return false;
+						}
+						size = wr_x16( temp16 );
+					}
+
+					if ( size > serializer.remaining() ) // every element takes at least a byte
 					{
 						return false;
 					}
 
-					temp16 = wr_x16( temp16 );
 					value.p2 = INIT_AS_ARRAY;
 					
 					switch( (uint8_t)temp )
 					{
 						case SV_CHAR:
 						{
-							value.va = context->getSVA( temp16, SV_CHAR, false );
+							value.va = context->getSVA( size, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 							if ( !value.va )
 							{
@@ -15364,7 +15401,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 								return false;
 							}
 #endif
-							if ( !serializer.read(value.va->m_SCdata, temp16) )
+							if ( !serializer.read(value.va->m_SCdata, size) )
 							{
 								return false;
 							}
@@ -15373,7 +15410,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 						case SV_VALUE:
 						{
-							value.va = context->getSVA( temp16, SV_VALUE, false );
+							value.va = context->getSVA( size, SV_VALUE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 							if ( !value.va )
 							{
@@ -15381,7 +15418,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 								return false;
 							}
 #endif
-							for( uint16_t i=0; i<temp16; ++i )
+							for( uint32_t i=0; i<size; ++i )
 							{
 								if ( !wr_deserializeEx(value.va->m_Vdata[i], serializer, context) )
 								{
-- 
2.43.0


From bfe6f7abf1a4ca08273b314a9d789d72ee0acd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 45/98] fix: sprintf counts sign and prefix in the field width
 and zero-pads after them

---
 discrete_src/lib/std_string.cpp | 19 ++++++++++++++++---
 src/wrench.cpp                  | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index ccd2127..37c879c 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -181,8 +181,13 @@ copyToString:
 //
 //				ptr -= len;
 
-				// Right-justify
-				if ( !(flags & negativeJustify) )
+				// the sign and prefix take up columns too
+				const bool prefix = (flags & altRep) || c == 'p';
+				unsigned int extra = ((flags & negativeSign) ? 1 : 0) + (prefix ? 2 : 0);
+				columns = columns > extra ? columns - extra : 0;
+
+				// Right-justify, zeros go between the sign and the digits
+				if ( !(flags & negativeJustify) && padChar != '0' )
 				{
 					for ( ; columns > len; columns-- )
 					{
@@ -195,12 +200,20 @@ copyToString:
 					addChar( outbuf, '-', pos, outsize );
 				}
 
-				if ( flags & altRep || c == 'p' )
+				if ( prefix )
 				{
 					addChar( outbuf, '0', pos, outsize );
 					addChar( outbuf, 'x', pos, outsize );
 				}
 
+				if ( !(flags & negativeJustify) )
+				{
+					for ( ; columns > len; columns-- )
+					{
+						addChar( outbuf, padChar, pos, outsize );
+					}
+				}
+
 				for (unsigned int l = 0; l < len; ++l )
 				{
 					addChar( outbuf, *ptr++, pos, outsize );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 43eae46..a1d4da5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21758,8 +21758,13 @@ copyToString:
 //
 //				ptr -= len;
 
-				// Right-justify
-				if ( !(flags & negativeJustify) )
+				// the sign and prefix take up columns too
+				const bool prefix = (flags & altRep) || c == 'p';
+				unsigned int extra = ((flags & negativeSign) ? 1 : 0) + (prefix ? 2 : 0);
+				columns = columns > extra ? columns - extra : 0;
+
+				// Right-justify, zeros go between the sign and the digits
+				if ( !(flags & negativeJustify) && padChar != '0' )
 				{
 					for ( ; columns > len; columns-- )
 					{
@@ -21772,12 +21777,20 @@ copyToString:
 					addChar( outbuf, '-', pos, outsize );
 				}
 
-				if ( flags & altRep || c == 'p' )
+				if ( prefix )
 				{
 					addChar( outbuf, '0', pos, outsize );
 					addChar( outbuf, 'x', pos, outsize );
 				}
 
+				if ( !(flags & negativeJustify) )
+				{
+					for ( ; columns > len; columns-- )
+					{
+						addChar( outbuf, padChar, pos, outsize );
+					}
+				}
+
 				for (unsigned int l = 0; l < len; ++l )
 				{
 					addChar( outbuf, *ptr++, pos, outsize );
-- 
2.43.0


From 91423ff9e32b49ebb731d04f538e689118d81688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 46/98] fix: sprintf %b and %o print all 32 bits

---
 discrete_src/lib/std_string.cpp | 6 +++---
 src/wrench.cpp                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 37c879c..7ce2fcb 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -143,7 +143,7 @@ resetState:
 		}
 		else // string or integer
 		{
-			const int c_bufSize = 20;
+			const int c_bufSize = 36; // 32 binary digits
 			char buf[c_bufSize]; // buffer for integer
 
 			const char *ptr; // pointer to first char of integer
@@ -274,13 +274,13 @@ parseDecimal:
 				else if ( c == 'b' ) // binary
 				{
 					base  = 2;
-					width = 16;
+					width = 32;
 					goto convertBase;
 				}
 				else if ( c == 'o' ) // octal
 				{
 					base  = 8;
-					width = 5;
+					width = 11;
 					goto convertBase;
 				}
 				else if ( c == 'x' || c == 'X' || c == 'p' ) // hexadecimal or pointer (pointer is treated as 'X')
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a1d4da5..0c39c32 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21720,7 +21720,7 @@ resetState:
 		}
 		else // string or integer
 		{
-			const int c_bufSize = 20;
+			const int c_bufSize = 36; // 32 binary digits
 			char buf[c_bufSize]; // buffer for integer
 
 			const char *ptr; // pointer to first char of integer
@@ -21851,13 +21851,13 @@ parseDecimal:
 				else if ( c == 'b' ) // binary
 				{
 					base  = 2;
-					width = 16;
+					width = 32;
 					goto convertBase;
 				}
 				else if ( c == 'o' ) // octal
 				{
 					base  = 8;
-					width = 5;
+					width = 11;
 					goto convertBase;
 				}
 				else if ( c == 'x' || c == 'X' || c == 'p' ) // hexadecimal or pointer (pointer is treated as 'X')
-- 
2.43.0


From 841e92fc5ce892c2c39252a33ba6061ef6ca6b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:51 +0000
Subject: [PATCH 47/98] fix: sprintf %f/%g copy only their own specifier and
 cannot overrun the buffers

---
 discrete_src/lib/std_string.cpp | 18 +++++++++++++-----
 src/wrench.cpp                  | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 7ce2fcb..ad635f1 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -244,22 +244,30 @@ copyToString:
 					char floatBuf[32];
 					int i = 30;
 					floatBuf[31] = 0;
-					const char *f = fmt;
-					for( ; *f != '%'; --f, --i )
+					const char *f = fmt - 1; // the specifier itself
+					for( ; *f != '%' && i > 0; --f, --i )
 					{
 						floatBuf[i] = *f;
 					}
 					floatBuf[i] = '%';
 
+					const float value = listPtr < argn ? args[listPtr++].asFloat() : 0;
+
 					// suck in whatever lib we need for this
-					const int chars = snprintf( buf, 31, floatBuf + i, args[listPtr++].asFloat());
+					char number[128];
+					int chars = snprintf( number, sizeof(number), floatBuf + i, value );
 
 					// your system not have snprintf? the unsafe version is:
-					// const int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
+					// const int chars = sprintf( number, floatBuf + i, value );
+
+					if ( chars >= (int)sizeof(number) )
+					{
+						chars = (int)sizeof(number) - 1;
+					}
 
 					for( int j=0; j<chars; ++j )
 					{
-						addChar( outbuf, buf[j], pos, outsize );
+						addChar( outbuf, number[j], pos, outsize );
 					}
 					goto resetState;
 				}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0c39c32..824252f 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21821,22 +21821,30 @@ copyToString:
 					char floatBuf[32];
 					int i = 30;
 					floatBuf[31] = 0;
-					const char *f = fmt;
-					for( ; *f != '%'; --f, --i )
+					const char *f = fmt - 1; // the specifier itself
+					for( ; *f != '%' && i > 0; --f, --i )
 					{
 						floatBuf[i] = *f;
 					}
 					floatBuf[i] = '%';
 
+					const float value = listPtr < argn ? args[listPtr++].asFloat() : 0;
+
 					// suck in whatever lib we need for this
-					const int chars = snprintf( buf, 31, floatBuf + i, args[listPtr++].asFloat());
+					char number[128];
+					int chars = snprintf( number, sizeof(number), floatBuf + i, value );
 
 					// your system not have snprintf? the unsafe version is:
-					// const int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
+					// const int chars = sprintf( number, floatBuf + i, value );
+
+					if ( chars >= (int)sizeof(number) )
+					{
+						chars = (int)sizeof(number) - 1;
+					}
 
 					for( int j=0; j<chars; ++j )
 					{
-						addChar( outbuf, buf[j], pos, outsize );
+						addChar( outbuf, number[j], pos, outsize );
 					}
 					goto resetState;
 				}
-- 
2.43.0


From 60cbe179694b0886008047c4013d4e16bc74f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:08 +0000
Subject: [PATCH 48/98] fix: str::concat joins all of its arguments

---
 discrete_src/lib/std_string.cpp | 28 ++++++++++++++++++----------
 src/wrench.cpp                  | 28 ++++++++++++++++++----------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index ad635f1..3d80187 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -684,17 +684,18 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	WRValue* args = stackTop - argn;
-	unsigned int len1 = 0;
-	unsigned int len2 = 0;
-	const char* data1 = (const char*)args[0].array( &len1 );
-	const char* data2 = (const char*)args[1].array( &len2 );
-
-	if( !data1 || !data2 )
+	unsigned int total = 0;
+	for( int i=0; i<argn; ++i )
 	{
-		return;
+		unsigned int len = 0;
+		if ( !args[i].array(&len) )
+		{
+			return;
+		}
+		total += len;
 	}
 
-	stackTop->va = c->getSVA( len1 + len2, SV_CHAR, false );
+	stackTop->va = c->getSVA( total, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !stackTop->va )
 	{
@@ -702,8 +703,15 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 #endif
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data1, len1 );
-	memcpy( stackTop->va->m_Cdata + len1, data2, len2 );
+
+	unsigned char* to = stackTop->va->m_Cdata;
+	for( int i=0; i<argn; ++i )
+	{
+		unsigned int len = 0;
+		const char* data = (const char*)args[i].array( &len );
+		memcpy( to, data, len );
+		to += len;
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 824252f..dc140bc 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22261,17 +22261,18 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	WRValue* args = stackTop - argn;
-	unsigned int len1 = 0;
-	unsigned int len2 = 0;
-	const char* data1 = (const char*)args[0].array( &len1 );
-	const char* data2 = (const char*)args[1].array( &len2 );
-
-	if( !data1 || !data2 )
+	unsigned int total = 0;
+	for( int i=0; i<argn; ++i )
 	{
-		return;
+		unsigned int len = 0;
+		if ( !args[i].array(&len) )
+		{
+			return;
+		}
+		total += len;
 	}
 
-	stackTop->va = c->getSVA( len1 + len2, SV_CHAR, false );
+	stackTop->va = c->getSVA( total, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !stackTop->va )
 	{
@@ -22279,8 +22280,15 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 #endif
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data1, len1 );
-	memcpy( stackTop->va->m_Cdata + len1, data2, len2 );
+
+	unsigned char* to = stackTop->va->m_Cdata;
+	for( int i=0; i<argn; ++i )
+	{
+		unsigned int len = 0;
+		const char* data = (const char*)args[i].array( &len );
+		memcpy( to, data, len );
+		to += len;
+	}
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 8dd236b31391583e62b7d50947bad9bf22e9875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 49/98] fix: str::tol parses the whole string, not the first 20
 characters

---
 discrete_src/lib/std_string.cpp | 14 +++++++-------
 src/wrench.cpp                  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 3d80187..956c967 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -664,14 +664,14 @@ void wr_toupper( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_tol( WRValue* stackTop, const int argn, WRContext* c )
 {
-	char buf[21];
-	if ( argn == 2 )
+	if ( argn == 1 || argn == 2 )
 	{
-		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 20), 0, stackTop[-1].asInt() );
-	}
-	else if ( argn == 1 )
-	{
-		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 20), 0, 10 );
+		// could be any length, with leading space or in a small base
+		WRValue::MallocStrScoped string( stackTop[-argn] );
+		if ( string )
+		{
+			stackTop->i = (int)strtol( string, 0, argn == 2 ? stackTop[-1].asInt() : 10 );
+		}
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index dc140bc..04de68e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22241,14 +22241,14 @@ void wr_toupper( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_tol( WRValue* stackTop, const int argn, WRContext* c )
 {
-	char buf[21];
-	if ( argn == 2 )
-	{
-		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 20), 0, stackTop[-1].asInt() );
-	}
-	else if ( argn == 1 )
+	if ( argn == 1 || argn == 2 )
 	{
-		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 20), 0, 10 );
+		// could be any length, with leading space or in a small base
+		WRValue::MallocStrScoped string( stackTop[-argn] );
+		if ( string )
+		{
+			stackTop->i = (int)strtol( string, 0, argn == 2 ? stackTop[-1].asInt() : 10 );
+		}
 	}
 }
 
-- 
2.43.0


From d4ef190bcf80bbeaf8b70f86296d715addc04e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:43 +0000
Subject: [PATCH 50/98] fix: str::mid of an empty string is an empty string

---
 discrete_src/lib/std_string.cpp | 7 +++++--
 src/wrench.cpp                  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 956c967..e9ec1a2 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -541,7 +541,7 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	unsigned int len;
 	const char* data = (char *)(args[0].array(&len));
 	
-	if( !data || len <= 0 )
+	if( !data )
 	{
 		return;
 	}
@@ -568,7 +568,10 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	#endif
 	
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data + start, chars );
+	if ( chars )
+	{
+		memcpy( stackTop->va->m_Cdata, data + start, chars );
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 04de68e..a0665d3 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22118,7 +22118,7 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	unsigned int len;
 	const char* data = (char *)(args[0].array(&len));
 	
-	if( !data || len <= 0 )
+	if( !data )
 	{
 		return;
 	}
@@ -22145,7 +22145,10 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	#endif
 	
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data + start, chars );
+	if ( chars )
+	{
+		memcpy( stackTop->va->m_Cdata, data + start, chars );
+	}
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From feb20fe78c04d66687209215d8da28832494c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:00 +0000
Subject: [PATCH 51/98] fix: asString keeps its terminator inside the maxLen
 byte buffer

---
 discrete_src/lib/std.cpp     | 22 ++++++++++++++++++++--
 discrete_src/utils/utils.cpp |  7 ++++---
 src/wrench.cpp               | 29 ++++++++++++++++++++++++-----
 3 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 217b43d..ee1c8a2 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -96,7 +96,10 @@ int wr_itoa( int i, char* string, size_t len )
 	unsigned int val;
 	if ( i < 0 )
 	{
-		string[pos++] = '-';
+		if ( pos < len )
+		{
+			string[pos++] = '-';
+		}
 		val = 0 - (unsigned int)i; // INT_MIN has no positive counterpart
 	}
 	else
@@ -121,7 +124,7 @@ int wr_itoa( int i, char* string, size_t len )
 }
 
 //------------------------------------------------------------------------------
-int wr_ftoa( float f, char* string, size_t len )
+int wr_ftoaEx( float f, char* string, size_t len )
 {
 	size_t pos = 0;
 
@@ -173,6 +176,21 @@ int wr_ftoa( float f, char* string, size_t len )
 	return pos;
 }
 
+//------------------------------------------------------------------------------
+int wr_ftoa( float f, char* string, size_t len )
+{
+	char buf[32]; // convert in full, then give as much of it as there is room for
+	size_t size = wr_ftoaEx( f, buf, 30 );
+	if ( size > len )
+	{
+		size = len;
+	}
+
+	memcpy( string, buf, size );
+	string[size] = 0;
+	return size;
+}
+
 //------------------------------------------------------------------------------
 const int32_t wr_randEx( const int32_t from, const int32_t to )
 {
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 37ea268..3f48cf0 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -952,18 +952,19 @@ char* WRValue::asString( char* string, unsigned int maxLen, unsigned int* strLen
 	}
 
 	unsigned int len = 0;
+	const unsigned int room = maxLen ? maxLen - 1 : 0xFFFFFFFF; // the terminator needs a place too
 	
 	if ( type == WR_FLOAT )
 	{
-		len = wr_ftoa( f, string, maxLen );
+		len = wr_ftoa( f, string, room );
 	}
 	else if ( type == WR_INT )
 	{
-		len = wr_itoa( i, string, maxLen );
+		len = wr_itoa( i, string, room );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
 	{
-		len = maxLen ? (maxLen > va->m_size ? va->m_size : maxLen) : va->m_size;
+		len = room > va->m_size ? va->m_size : room;
 		memcpy( string, va->m_Cdata, len );
 		string[len] = 0;
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a0665d3..58706bb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14453,18 +14453,19 @@ char* WRValue::asString( char* string, unsigned int maxLen, unsigned int* strLen
 	}
 
 	unsigned int len = 0;
+	const unsigned int room = maxLen ? maxLen - 1 : 0xFFFFFFFF; // the terminator needs a place too
 	
 	if ( type == WR_FLOAT )
 	{
-		len = wr_ftoa( f, string, maxLen );
+		len = wr_ftoa( f, string, room );
 	}
 	else if ( type == WR_INT )
 	{
-		len = wr_itoa( i, string, maxLen );
+		len = wr_itoa( i, string, room );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
 	{
-		len = maxLen ? (maxLen > va->m_size ? va->m_size : maxLen) : va->m_size;
+		len = room > va->m_size ? va->m_size : room;
 		memcpy( string, va->m_Cdata, len );
 		string[len] = 0;
 	}
@@ -20094,7 +20095,10 @@ int wr_itoa( int i, char* string, size_t len )
 	unsigned int val;
 	if ( i < 0 )
 	{
-		string[pos++] = '-';
+		if ( pos < len )
+		{
+			string[pos++] = '-';
+		}
 		val = 0 - (unsigned int)i; // INT_MIN has no positive counterpart
 	}
 	else
@@ -20119,7 +20123,7 @@ int wr_itoa( int i, char* string, size_t len )
 }
 
 //------------------------------------------------------------------------------
-int wr_ftoa( float f, char* string, size_t len )
+int wr_ftoaEx( float f, char* string, size_t len )
 {
 	size_t pos = 0;
 
@@ -20171,6 +20175,21 @@ int wr_ftoa( float f, char* string, size_t len )
 	return pos;
 }
 
+//------------------------------------------------------------------------------
+int wr_ftoa( float f, char* string, size_t len )
+{
+	char buf[32]; // convert in full, then give as much of it as there is room for
+	size_t size = wr_ftoaEx( f, buf, 30 );
+	if ( size > len )
+	{
+		size = len;
+	}
+
+	memcpy( string, buf, size );
+	string[size] = 0;
+	return size;
+}
+
 //------------------------------------------------------------------------------
 const int32_t wr_randEx( const int32_t from, const int32_t to )
 {
-- 
2.43.0


From 11246687e386a05a44a714ab0d0adc585fa1bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 52/98] fix: asMallocString reports the length of strings and
 has room for any float

---
 discrete_src/utils/utils.cpp | 23 +++++++++++++++++++----
 src/wrench.cpp               | 23 +++++++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 3f48cf0..b48a331 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -909,12 +909,26 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 
 	if ( type == WR_FLOAT )
 	{
-		ret = (char*)g_malloc( 12 );
-		len = wr_ftoa( f, ret, 11 );
+		ret = (char*)g_malloc( 32 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
+		len = wr_ftoa( f, ret, 31 );
 	}
 	else if ( type == WR_INT )
 	{
 		ret = (char*)g_malloc( 13 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
 		len = wr_itoa( i, ret, 12 );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
@@ -927,8 +941,9 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 			return 0;
 		}
 #endif
-		memcpy( ret, va->m_Cdata, va->m_size );
-		ret[ va->m_size ] = 0;
+		len = va->m_size;
+		memcpy( ret, va->m_Cdata, len );
+		ret[ len ] = 0;
 	}
 	else
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 58706bb..7ba7d9c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14410,12 +14410,26 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 
 	if ( type == WR_FLOAT )
 	{
-		ret = (char*)g_malloc( 12 );
-		len = wr_ftoa( f, ret, 11 );
+		ret = (char*)g_malloc( 32 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
+		len = wr_ftoa( f, ret, 31 );
 	}
 	else if ( type == WR_INT )
 	{
 		ret = (char*)g_malloc( 13 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
 		len = wr_itoa( i, ret, 12 );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
@@ -14428,8 +14442,9 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 			return 0;
 		}
 #endif
-		memcpy( ret, va->m_Cdata, va->m_size );
-		ret[ va->m_size ] = 0;
+		len = va->m_size;
+		memcpy( ret, va->m_Cdata, len );
+		ret[ len ] = 0;
 	}
 	else
 	{
-- 
2.43.0


From 1f27fe64ebf25de34e34abb206c9a2bf8dc946ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:34 +0000
Subject: [PATCH 53/98] fix: technicalAsString never writes past maxLen

---
 discrete_src/utils/utils.cpp | 61 +++++++++++++++++++++++++-----------
 src/wrench.cpp               | 61 +++++++++++++++++++++++++-----------
 2 files changed, 84 insertions(+), 38 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index b48a331..71c247d 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -788,42 +788,60 @@ int WRValue::arraySize() const
 	return V.xtype == WR_EX_ARRAY ? V.va->m_size : -1;
 }
 
+//------------------------------------------------------------------------------
+size_t wr_technicalAppend( char* string, size_t pos, const size_t maxLen, const char* text )
+{
+	for( ; *text && pos < maxLen; ++text )
+	{
+		string[pos++] = *text;
+	}
+	return pos; // never past maxLen
+}
+
 //------------------------------------------------------------------------------
 int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
 {
 	if ( pos >= maxLen )
 	{
-		return maxLen - 1;
+		return maxLen;
 	}
 	
 	if ( value->type == WR_REF )
 	{
-		strncpy( (string + pos), "ref: ", maxLen - pos );
-		pos += 5;
+		pos = wr_technicalAppend( string, pos, maxLen, "ref: " );
 		return wr_technicalAsStringEx( string, value->r, pos, maxLen, valuesInHex );
 	}
 	else if ( value->type == WR_FLOAT )
 	{
-		return pos + snprintf( string + pos, maxLen - pos, "%g", value->f );
+		char buf[32];
+		snprintf( buf, sizeof(buf), "%g", value->f );
+		return wr_technicalAppend( string, pos, maxLen, buf );
 	}
 	else if ( value->type == WR_INT )
 	{
-		return pos + (valuesInHex ? snprintf(string + pos, maxLen - pos, "0x%08lX", (unsigned long int)value->ui )
-			: snprintf(string + pos, maxLen - pos, "%ld", (long int)value->i));
-				
+		char buf[32];
+		if ( valuesInHex )
+		{
+			snprintf( buf, sizeof(buf), "0x%08lX", (unsigned long int)value->ui );
+		}
+		else
+		{
+			snprintf( buf, sizeof(buf), "%ld", (long int)value->i );
+		}
+		return wr_technicalAppend( string, pos, maxLen, buf );
 	}
 	else if ( value->xtype == WR_EX_ARRAY )
 	{
 		if ( value->va->m_type == SV_VALUE )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "[ " );
+			pos = wr_technicalAppend( string, pos, maxLen, "[ " );
 
 			bool first = true;
 			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
 			{
 				if ( !first )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_technicalAppend( string, pos, maxLen, ", " );
 				}
 				first = false;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + i, pos, maxLen, valuesInHex );
@@ -834,11 +852,11 @@ int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size
 				return maxLen;
 			}
 
-			pos += snprintf( string + pos, maxLen - pos, " ]" );
+			pos = wr_technicalAppend( string, pos, maxLen, " ]" );
 		}
 		else if ( value->va->m_type == SV_CHAR )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
+			pos = wr_technicalAppend( string, pos, maxLen, "\"" );
 
 			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
 			{
@@ -850,16 +868,16 @@ int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size
 				return maxLen;
 			}
 
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
+			pos = wr_technicalAppend( string, pos, maxLen, "\"" );
 		}
 		else
 		{
-			pos += snprintf( string + pos, maxLen - pos, "<raw array>" );
+			pos = wr_technicalAppend( string, pos, maxLen, "<raw array>" );
 		}
 	}
 	else if ( value->xtype == WR_EX_HASH_TABLE )
 	{
-		pos += snprintf( string + pos, maxLen - pos, "{ " );
+		pos = wr_technicalAppend( string, pos, maxLen, "{ " );
 		
 		bool first = true;
 		for( int32_t element=0; element<value->va->m_mod; ++element )
@@ -868,17 +886,17 @@ int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size
 			{
 				if ( !first )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_technicalAppend( string, pos, maxLen, ", " );
 				}
 				first = false;
 				int32_t index = element << 1;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index + 1, pos, maxLen, valuesInHex );
-				pos += snprintf( string + pos, maxLen - pos, ":" );
+				pos = wr_technicalAppend( string, pos, maxLen, ":" );
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index, pos, maxLen, valuesInHex );
 			}
 		}
 
-		pos += snprintf( string + pos, maxLen - pos, " }" );
+		pos = wr_technicalAppend( string, pos, maxLen, " }" );
 	}
 
 	return (pos >= maxLen) ? maxLen : pos;
@@ -887,8 +905,13 @@ int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size
 //------------------------------------------------------------------------------
 char* WRValue::technicalAsString( char* string, unsigned int maxLen, bool valuesInHex, unsigned int* strLen ) const
 {
-	unsigned int len = wr_technicalAsStringEx( string, this, 0, maxLen, valuesInHex );
-	string[ len ] = 0;
+	unsigned int len = 0;
+	if ( maxLen )
+	{
+		len = wr_technicalAsStringEx( string, this, 0, maxLen - 1, valuesInHex );
+		string[ len ] = 0;
+	}
+
 	if ( strLen )
 	{
 		*strLen = len;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 7ba7d9c..4d69efd 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14289,42 +14289,60 @@ int WRValue::arraySize() const
 	return V.xtype == WR_EX_ARRAY ? V.va->m_size : -1;
 }
 
+//------------------------------------------------------------------------------
+size_t wr_technicalAppend( char* string, size_t pos, const size_t maxLen, const char* text )
+{
+	for( ; *text && pos < maxLen; ++text )
+	{
+		string[pos++] = *text;
+	}
+	return pos; // never past maxLen
+}
+
 //------------------------------------------------------------------------------
 int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
 {
 	if ( pos >= maxLen )
 	{
-		return maxLen - 1;
+		return maxLen;
 	}
 	
 	if ( value->type == WR_REF )
 	{
-		strncpy( (string + pos), "ref: ", maxLen - pos );
-		pos += 5;
+		pos = wr_technicalAppend( string, pos, maxLen, "ref: " );
 		return wr_technicalAsStringEx( string, value->r, pos, maxLen, valuesInHex );
 	}
 	else if ( value->type == WR_FLOAT )
 	{
-		return pos + snprintf( string + pos, maxLen - pos, "%g", value->f );
+		char buf[32];
+		snprintf( buf, sizeof(buf), "%g", value->f );
+		return wr_technicalAppend( string, pos, maxLen, buf );
 	}
 	else if ( value->type == WR_INT )
 	{
-		return pos + (valuesInHex ? snprintf(string + pos, maxLen - pos, "0x%08lX", (unsigned long int)value->ui )
-			: snprintf(string + pos, maxLen - pos, "%ld", (long int)value->i));
-				
+		char buf[32];
+		if ( valuesInHex )
+		{
+			snprintf( buf, sizeof(buf), "0x%08lX", (unsigned long int)value->ui );
+		}
+		else
+		{
+			snprintf( buf, sizeof(buf), "%ld", (long int)value->i );
+		}
+		return wr_technicalAppend( string, pos, maxLen, buf );
 	}
 	else if ( value->xtype == WR_EX_ARRAY )
 	{
 		if ( value->va->m_type == SV_VALUE )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "[ " );
+			pos = wr_technicalAppend( string, pos, maxLen, "[ " );
 
 			bool first = true;
 			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
 			{
 				if ( !first )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_technicalAppend( string, pos, maxLen, ", " );
 				}
 				first = false;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + i, pos, maxLen, valuesInHex );
@@ -14335,11 +14353,11 @@ int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size
 				return maxLen;
 			}
 
-			pos += snprintf( string + pos, maxLen - pos, " ]" );
+			pos = wr_technicalAppend( string, pos, maxLen, " ]" );
 		}
 		else if ( value->va->m_type == SV_CHAR )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
+			pos = wr_technicalAppend( string, pos, maxLen, "\"" );
 
 			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
 			{
@@ -14351,16 +14369,16 @@ int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size
 				return maxLen;
 			}
 
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
+			pos = wr_technicalAppend( string, pos, maxLen, "\"" );
 		}
 		else
 		{
-			pos += snprintf( string + pos, maxLen - pos, "<raw array>" );
+			pos = wr_technicalAppend( string, pos, maxLen, "<raw array>" );
 		}
 	}
 	else if ( value->xtype == WR_EX_HASH_TABLE )
 	{
-		pos += snprintf( string + pos, maxLen - pos, "{ " );
+		pos = wr_technicalAppend( string, pos, maxLen, "{ " );
 		
 		bool first = true;
 		for( int32_t element=0; element<value->va->m_mod; ++element )
@@ -14369,17 +14387,17 @@ int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size
 			{
 				if ( !first )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_technicalAppend( string, pos, maxLen, ", " );
 				}
 				first = false;
 				int32_t index = element << 1;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index + 1, pos, maxLen, valuesInHex );
-				pos += snprintf( string + pos, maxLen - pos, ":" );
+				pos = wr_technicalAppend( string, pos, maxLen, ":" );
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index, pos, maxLen, valuesInHex );
 			}
 		}
 
-		pos += snprintf( string + pos, maxLen - pos, " }" );
+		pos = wr_technicalAppend( string, pos, maxLen, " }" );
 	}
 
 	return (pos >= maxLen) ? maxLen : pos;
@@ -14388,8 +14406,13 @@ int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size
 //------------------------------------------------------------------------------
 char* WRValue::technicalAsString( char* string, unsigned int maxLen, bool valuesInHex, unsigned int* strLen ) const
 {
-	unsigned int len = wr_technicalAsStringEx( string, this, 0, maxLen, valuesInHex );
-	string[ len ] = 0;
+	unsigned int len = 0;
+	if ( maxLen )
+	{
+		len = wr_technicalAsStringEx( string, this, 0, maxLen - 1, valuesInHex );
+		string[ len ] = 0;
+	}
+
 	if ( strLen )
 	{
 		*strLen = len;
-- 
2.43.0


From 3f2fa45863072e192b27fd29f7826f9c77d88343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:51 +0000
Subject: [PATCH 54/98] fix: messages no longer overwrite registered functions

---
 discrete_src/lib/std_msg.cpp | 16 ++++++++++++----
 src/wrench.cpp               | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/discrete_src/lib/std_msg.cpp b/discrete_src/lib/std_msg.cpp
index f28ac5f..7b75eb0 100644
--- a/discrete_src/lib/std_msg.cpp
+++ b/discrete_src/lib/std_msg.cpp
@@ -24,6 +24,14 @@ SOFTWARE.
 
 #include "wrench.h"
 
+//------------------------------------------------------------------------------
+// messages live in the global registry alongside the registered functions and
+// constants, salt the key so a message can never alias one of them
+static uint32_t wr_mboxKey( WRValue* key )
+{
+	return key->getHash() ^ 0x6D736721;
+}
+
 //------------------------------------------------------------------------------
 // key   : anything hashable
 // clear : [OPTIONAL] default 0/'false' 
@@ -36,7 +44,7 @@ void wr_mboxRead( WRValue* stackTop, const int argn, WRContext* c )
 		WRValue* args = stackTop - argn;
 		int clear = (argn > 1) ? args[1].asInt() : 0;
 
-		WRValue* msg = c->w->globalRegistry.exists( args[0].getHash(), clear != 0 );
+		WRValue* msg = c->w->globalRegistry.exists( wr_mboxKey(args), clear != 0 );
 
 		if ( msg )
 		{
@@ -55,7 +63,7 @@ void wr_mboxWrite( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* args = stackTop - argn;
 
-		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( args[0].getHash() );
+		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( wr_mboxKey(args) );
 		msg->ui = args[1].getHash();
 		msg->p2 = INIT_AS_INT;
 	}
@@ -67,7 +75,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0 )
 	{
-		c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		c->w->globalRegistry.exists( wr_mboxKey(stackTop - argn), true );
 	}
 }
 
@@ -78,7 +86,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 void wr_mboxPeek( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0
-		 && c->w->globalRegistry.exists((stackTop - argn)->getHash(), false) )
+		 && c->w->globalRegistry.exists( wr_mboxKey(stackTop - argn), false ) )
 	{
 		stackTop->i = 1;
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4d69efd..d52f9c4 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22929,6 +22929,14 @@ SOFTWARE.
 
 #include "wrench.h"
 
+//------------------------------------------------------------------------------
+// messages live in the global registry alongside the registered functions and
+// constants, salt the key so a message can never alias one of them
+static uint32_t wr_mboxKey( WRValue* key )
+{
+	return key->getHash() ^ 0x6D736721;
+}
+
 //------------------------------------------------------------------------------
 // key   : anything hashable
 // clear : [OPTIONAL] default 0/'false' 
@@ -22941,7 +22949,7 @@ void wr_mboxRead( WRValue* stackTop, const int argn, WRContext* c )
 		WRValue* args = stackTop - argn;
 		int clear = (argn > 1) ? args[1].asInt() : 0;
 
-		WRValue* msg = c->w->globalRegistry.exists( args[0].getHash(), clear != 0 );
+		WRValue* msg = c->w->globalRegistry.exists( wr_mboxKey(args), clear != 0 );
 
 		if ( msg )
 		{
@@ -22960,7 +22968,7 @@ void wr_mboxWrite( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* args = stackTop - argn;
 
-		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( args[0].getHash() );
+		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( wr_mboxKey(args) );
 		msg->ui = args[1].getHash();
 		msg->p2 = INIT_AS_INT;
 	}
@@ -22972,7 +22980,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0 )
 	{
-		c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		c->w->globalRegistry.exists( wr_mboxKey(stackTop - argn), true );
 	}
 }
 
@@ -22983,7 +22991,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 void wr_mboxPeek( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0
-		 && c->w->globalRegistry.exists((stackTop - argn)->getHash(), false) )
+		 && c->w->globalRegistry.exists( wr_mboxKey(stackTop - argn), false ) )
 	{
 		stackTop->i = 1;
 	}
-- 
2.43.0


From dca362ab5907d5beef0ba93f5f1432ba15035d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:08 +0000
Subject: [PATCH 55/98] fix: sys::importByteCode frees nothing it should not
 and leaks nothing on bad bytecode, isFunction ignores empty entries

---
 discrete_src/lib/std_sys.cpp | 9 ++++++++-
 src/wrench.cpp               | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index d29774e..3bd31d4 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -34,7 +34,8 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* arg = stackTop - argn;
 		uint32_t hash = arg->getHash();
-		if ( c->w->globalRegistry.exists(hash, false) )
+		WRValue* native = c->w->globalRegistry.exists( hash, false );
+		if ( native && native->ccb ) // calling a name that is not native leaves an empty entry
 		{
 			stackTop->i = 1;
 		}
@@ -54,6 +55,12 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 		char* data = (char *)((stackTop - argn)->array( &len, SV_CHAR ));
 		if ( data )
 		{
+			if ( !wr_isBytecodeValid((const uint8_t*)data, len) )
+			{
+				c->w->err = WR_ERR_bad_bytecode_CRC;
+				return;
+			}
+
 			uint8_t* import = (uint8_t*)g_malloc( len );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if(!import) { g_mallocFailed = true; return; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d52f9c4..69bd6ea 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23041,7 +23041,8 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* arg = stackTop - argn;
 		uint32_t hash = arg->getHash();
-		if ( c->w->globalRegistry.exists(hash, false) )
+		WRValue* native = c->w->globalRegistry.exists( hash, false );
+		if ( native && native->ccb ) // calling a name that is not native leaves an empty entry
 		{
 			stackTop->i = 1;
 		}
@@ -23061,6 +23062,12 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 		char* data = (char *)((stackTop - argn)->array( &len, SV_CHAR ));
 		if ( data )
 		{
+			if ( !wr_isBytecodeValid((const uint8_t*)data, len) )
+			{
+				c->w->err = WR_ERR_bad_bytecode_CRC;
+				return;
+			}
+
 			uint8_t* import = (uint8_t*)g_malloc( len );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if(!import) { g_mallocFailed = true; return; }
-- 
2.43.0


From 138950308a0c71aeddf4fea654cff3eca299dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:29 +0000
Subject: [PATCH 56/98] fix: importing from running or yielded code does not
 clobber its stack

---
 discrete_src/lib/std_sys.cpp |  4 ++--
 discrete_src/utils/utils.cpp | 15 ++++++++++++++-
 discrete_src/wrench.h        |  3 +++
 src/wrench.cpp               | 19 ++++++++++++++++---
 src/wrench.h                 |  3 +++
 5 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index 3bd31d4..d8e998d 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -66,7 +66,7 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 			if(!import) { g_mallocFailed = true; return; }
 #endif
 			memcpy( (char*)import, data, len );
-			wr_import( c, import, len, true );
+			wr_importEx( c, import, len, true, stackTop + 1 );
 		}
 		else
 		{
@@ -88,7 +88,7 @@ void wr_importCompile( WRValue* stackTop, const int argn, WRContext* c )
 			int outlen;
 			if ( (stackTop->i = wr_compile(data, len, &out, &outlen)) == WR_ERR_None )
 			{
-				wr_import( c, out, outlen, true );
+				wr_importEx( c, out, outlen, true, stackTop + 1 );
 			}
 		}
 	}
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 71c247d..bdb1d22 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -383,7 +383,7 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 }
 
 //------------------------------------------------------------------------------
-WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
+WRContext* wr_importEx( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stackTop )
 {
 	WRContext* import = wr_createContext( context->w, block, blockSize, takeOwnership, context->stack );
 	if ( !import )
@@ -391,6 +391,9 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	// the stack is shared, run above whatever is already using it
+	import->stackOffset = (uint16_t)(stackTop - context->stack);
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -398,6 +401,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->stackOffset = 0;
+
 	import->imported = context->imported;
 	context->imported = import;
 
@@ -410,6 +415,14 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	return import;
 }
 
+//------------------------------------------------------------------------------
+WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
+{
+	// +1 for the return value of the yield
+	return wr_importEx( context, block, blockSize, takeOwnership,
+						context->yield_pc ? context->yield_stackTop + 1 : context->stack );
+}
+
 //------------------------------------------------------------------------------
 bool wr_isBytecodeValid( const uint8_t* bytecode, const unsigned int len, uint32_t* hash )
 {
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index ac15142..d8c9b79 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -369,6 +369,9 @@ bool wr_runCommand( WRState* w, const char* sourceCode, const int size =-1 );
 //                will be freed with  wr_free()
 WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership =false );
 
+// as above, called from code that is using the context's stack up to stackTop
+WRContext* wr_importEx( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stackTop );
+
 // After wr_run(...) or wr_callFunction(...) has run, there is always a
 // return value (default 0) this function fetches it
 WRValue* wr_returnValueFromLastCall( WRContext* context );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 69bd6ea..b11bb73 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -13884,7 +13884,7 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 }
 
 //------------------------------------------------------------------------------
-WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
+WRContext* wr_importEx( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stackTop )
 {
 	WRContext* import = wr_createContext( context->w, block, blockSize, takeOwnership, context->stack );
 	if ( !import )
@@ -13892,6 +13892,9 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	// the stack is shared, run above whatever is already using it
+	import->stackOffset = (uint16_t)(stackTop - context->stack);
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -13899,6 +13902,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->stackOffset = 0;
+
 	import->imported = context->imported;
 	context->imported = import;
 
@@ -13911,6 +13916,14 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	return import;
 }
 
+//------------------------------------------------------------------------------
+WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
+{
+	// +1 for the return value of the yield
+	return wr_importEx( context, block, blockSize, takeOwnership,
+						context->yield_pc ? context->yield_stackTop + 1 : context->stack );
+}
+
 //------------------------------------------------------------------------------
 bool wr_isBytecodeValid( const uint8_t* bytecode, const unsigned int len, uint32_t* hash )
 {
@@ -23073,7 +23086,7 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 			if(!import) { g_mallocFailed = true; return; }
 #endif
 			memcpy( (char*)import, data, len );
-			wr_import( c, import, len, true );
+			wr_importEx( c, import, len, true, stackTop + 1 );
 		}
 		else
 		{
@@ -23095,7 +23108,7 @@ void wr_importCompile( WRValue* stackTop, const int argn, WRContext* c )
 			int outlen;
 			if ( (stackTop->i = wr_compile(data, len, &out, &outlen)) == WR_ERR_None )
 			{
-				wr_import( c, out, outlen, true );
+				wr_importEx( c, out, outlen, true, stackTop + 1 );
 			}
 		}
 	}
diff --git a/src/wrench.h b/src/wrench.h
index ea992ee..0bae337 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -370,6 +370,9 @@ bool wr_runCommand( WRState* w, const char* sourceCode, const int size =-1 );
 //                will be freed with  wr_free()
 WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership =false );
 
+// as above, called from code that is using the context's stack up to stackTop
+WRContext* wr_importEx( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stackTop );
+
 // After wr_run(...) or wr_callFunction(...) has run, there is always a
 // return value (default 0) this function fetches it
 WRValue* wr_returnValueFromLastCall( WRContext* context );
-- 
2.43.0


From 9605176879da301296c66858005044256bcc352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:50 +0000
Subject: [PATCH 57/98] fix: contexts that imported each other are garbage
 collected together

---
 discrete_src/vm/gc.cpp | 45 +++++++++++++++++++++++++++++++-----------
 discrete_src/wrench.h  |  2 ++
 src/wrench.cpp         | 45 +++++++++++++++++++++++++++++++-----------
 src/wrench.h           |  2 ++
 4 files changed, 70 insertions(+), 24 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index bac0f34..9e52ec4 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -89,26 +89,42 @@ void WRContext::gc( WRValue* stackTop )
 		return;
 	}
 
-	allocatedMemoryHint = 0;
-
-	// mark permenants
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
-		for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+		// imported contexts share the stack and pass values to each
+		// other, so they can only be collected together
+		WRContext* c = this;
+		do
 		{
-			if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
-			{
-				markBase( a );
-			}
-		}
+			c->gcMarkRoots();
+		} while( (c = c->imported) && c != this );
 
 		// mark stack
-		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
+		for( WRValue* s=stack + (imported ? 0 : stackOffset); s<stackTop; ++s)
 		{
 			mark( s );
 		}
+
+		for( c = imported; c && c != this; c = c->imported )
+		{
+			c->gcSweep();
+		}
+	}
+
+	gcSweep();
+}
+
+//------------------------------------------------------------------------------
+void WRContext::gcMarkRoots()
+{
+	// mark permenants
+	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	{
+		if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+		{
+			markBase( a );
+		}
 	}
-	
 
 	// mark context's globals
 	WRValue* globalSpace = (WRValue *)(this + 1); // globals are allocated directly after this context
@@ -117,8 +133,13 @@ void WRContext::gc( WRValue* stackTop )
 	{
 		mark( globalSpace );
 	}
+}
+
+//------------------------------------------------------------------------------
+void WRContext::gcSweep()
+{
+	allocatedMemoryHint = 0;
 
-	// sweep
 	WRGCBase* current = svAllocated;
 	WRGCBase* prev = 0;
 	while( current )
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index d8c9b79..de6a8cc 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1162,6 +1162,8 @@ struct WRContext
 	void markBase( WRGCBase* svb );
 	void mark( WRValue* s );
 	void gc( WRValue* stackTop );
+	void gcMarkRoots();
+	void gcSweep();
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
 };
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b11bb73..9f39fe2 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10134,26 +10134,42 @@ void WRContext::gc( WRValue* stackTop )
 		return;
 	}
 
-	allocatedMemoryHint = 0;
-
-	// mark permenants
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
-		for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+		// imported contexts share the stack and pass values to each
+		// other, so they can only be collected together
+		WRContext* c = this;
+		do
 		{
-			if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
-			{
-				markBase( a );
-			}
-		}
+			c->gcMarkRoots();
+		} while( (c = c->imported) && c != this );
 
 		// mark stack
-		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
+		for( WRValue* s=stack + (imported ? 0 : stackOffset); s<stackTop; ++s)
 		{
 			mark( s );
 		}
+
+		for( c = imported; c && c != this; c = c->imported )
+		{
+			c->gcSweep();
+		}
+	}
+
+	gcSweep();
+}
+
+//------------------------------------------------------------------------------
+void WRContext::gcMarkRoots()
+{
+	// mark permenants
+	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	{
+		if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+		{
+			markBase( a );
+		}
 	}
-	
 
 	// mark context's globals
 	WRValue* globalSpace = (WRValue *)(this + 1); // globals are allocated directly after this context
@@ -10162,8 +10178,13 @@ void WRContext::gc( WRValue* stackTop )
 	{
 		mark( globalSpace );
 	}
+}
+
+//------------------------------------------------------------------------------
+void WRContext::gcSweep()
+{
+	allocatedMemoryHint = 0;
 
-	// sweep
 	WRGCBase* current = svAllocated;
 	WRGCBase* prev = 0;
 	while( current )
diff --git a/src/wrench.h b/src/wrench.h
index 0bae337..f6a8679 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -1163,6 +1163,8 @@ struct WRContext
 	void markBase( WRGCBase* svb );
 	void mark( WRValue* s );
 	void gc( WRValue* stackTop );
+	void gcMarkRoots();
+	void gcSweep();
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
 };
-- 
2.43.0


From 7de743163ec251e4be466a4133f9f307aad973f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:07 +0000
Subject: [PATCH 58/98] fix: stack limit is that of the whole stack for
 imported calls and host arguments

---
 discrete_src/vm/vm.cpp | 9 ++++++++-
 src/wrench.cpp         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 7a8edf0..798b4a5 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -678,7 +678,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-	WRValue* stackLimit = stackBase + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
+	WRValue* stackLimit = context->stack + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
 #endif
 
 	if ( context->yield_pc )
@@ -714,6 +714,13 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+		if ( stackTop + argn + 1 >= stackLimit )
+		{
+			w->err = WR_ERR_stack_overflow;
+			return 0;
+		}
+#endif
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 9f39fe2..1ea4709 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10924,7 +10924,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-	WRValue* stackLimit = stackBase + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
+	WRValue* stackLimit = context->stack + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
 #endif
 
 	if ( context->yield_pc )
@@ -10960,6 +10960,13 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+		if ( stackTop + argn + 1 >= stackLimit )
+		{
+			w->err = WR_ERR_stack_overflow;
+			return 0;
+		}
+#endif
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
-- 
2.43.0


From c7264791a8802300bc5a1f5e1f8eb1a1a049512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:59 +0000
Subject: [PATCH 59/98] fix: calling into a context whose global code has not
 finished is an error, not a crash

---
 discrete_src/vm/vm.cpp | 5 +++++
 src/wrench.cpp         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 798b4a5..64d1a97 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -714,6 +714,11 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+		if ( !context->stopLocation ) // there is no place to return to until the global code has run
+		{
+			w->err = WR_ERR_run_must_be_called_by_itself_first;
+			return 0;
+		}
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
 		if ( stackTop + argn + 1 >= stackLimit )
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 1ea4709..575aceb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10960,6 +10960,11 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+		if ( !context->stopLocation ) // there is no place to return to until the global code has run
+		{
+			w->err = WR_ERR_run_must_be_called_by_itself_first;
+			return 0;
+		}
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
 		if ( stackTop + argn + 1 >= stackLimit )
 		{
-- 
2.43.0


From 643d9f8e9b5aee50911e2858b766726d20e9d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:46 +0000
Subject: [PATCH 60/98] fix: imported functions return values, not references
 into their frame

---
 discrete_src/vm/vm.cpp | 1 +
 src/wrench.cpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 64d1a97..aae60cd 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -905,6 +905,7 @@ debugReturn:
 									{
 										return 0;
 									}
+									*stackTop = *register0; // by value, it may be a reference into the frame that is gone
 									register0 = stackTop;
 
 								if ( *pc == O_NewObjectTable )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 575aceb..9fb4042 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11151,6 +11151,7 @@ debugReturn:
 									{
 										return 0;
 									}
+									*stackTop = *register0; // by value, it may be a reference into the frame that is gone
 									register0 = stackTop;
 
 								if ( *pc == O_NewObjectTable )
-- 
2.43.0


From d544db11c7199f2976781532936d9e796788c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:10 +0000
Subject: [PATCH 61/98] fix: every push is checked against the stack limit

---
 discrete_src/vm/vm.cpp | 9 ++++++++-
 src/wrench.cpp         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index aae60cd..6cf3b4c 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -967,8 +967,8 @@ CallFunctionByHash_continue:
 					++stackTop;
 				}
 				
-				CHECK_STACK;
 newObjOut:
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1164,6 +1164,7 @@ callFunction:
 			{
 				wr_newObjectTable( context, stackTop++, pc, 0 );
 				pc += 2;
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1343,6 +1344,7 @@ callFunction:
 			CASE(IndexSkipLoad):
 			{
 				wr_index[(register0->type<<2)|register1->type]( context, register0, register1, stackTop++ );
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1400,6 +1402,7 @@ hashIndexJump:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_doIndexHash( stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -1556,6 +1559,7 @@ indexLiteral:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -1731,6 +1735,7 @@ doAssignToLocalAndPop:
 load32ToTemp:
 				register0->i = READ_32_FROM_PC(pc);
 				pc += 4;
+				CHECK_STACK;
 				CONTINUE;
 			}
 			
@@ -2299,6 +2304,7 @@ compactReturnCompareEQ:
 compactReturnCompareEQPost:
 				stackTop->i = (int)wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
@@ -2314,6 +2320,7 @@ compactReturnCompareNE:
 compactReturnCompareNEPost:
 				stackTop->i = (int)!wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 9fb4042..01c0b0f 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11213,8 +11213,8 @@ CallFunctionByHash_continue:
 					++stackTop;
 				}
 				
-				CHECK_STACK;
 newObjOut:
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -11410,6 +11410,7 @@ callFunction:
 			{
 				wr_newObjectTable( context, stackTop++, pc, 0 );
 				pc += 2;
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -11589,6 +11590,7 @@ callFunction:
 			CASE(IndexSkipLoad):
 			{
 				wr_index[(register0->type<<2)|register1->type]( context, register0, register1, stackTop++ );
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -11646,6 +11648,7 @@ hashIndexJump:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_doIndexHash( stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -11802,6 +11805,7 @@ indexLiteral:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -11977,6 +11981,7 @@ doAssignToLocalAndPop:
 load32ToTemp:
 				register0->i = READ_32_FROM_PC(pc);
 				pc += 4;
+				CHECK_STACK;
 				CONTINUE;
 			}
 			
@@ -12545,6 +12550,7 @@ compactReturnCompareEQ:
 compactReturnCompareEQPost:
 				stackTop->i = (int)wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
@@ -12560,6 +12566,7 @@ compactReturnCompareNE:
 compactReturnCompareNEPost:
 				stackTop->i = (int)!wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
-- 
2.43.0


From 46279cebca83343172e5f218905eaac671cf6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:50 +0000
Subject: [PATCH 62/98] fix: objects, tables and contexts that could not be
 allocated are not handed out

---
 discrete_src/utils/utils.cpp  | 31 +++++++++++++++
 discrete_src/vm/gc.cpp        | 11 +++++
 discrete_src/vm/gc_object.cpp | 30 +++++++++++++-
 discrete_src/vm/vm.cpp        |  3 ++
 src/wrench.cpp                | 75 ++++++++++++++++++++++++++++++++++-
 5 files changed, 148 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index bdb1d22..e47e13d 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -203,6 +203,14 @@ WRState* wr_newState( int stackSize )
 																		   
 	memset( (unsigned char*)w, 0, sizeof(WRState) );
 	w->globalRegistry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !w->globalRegistry.m_mod )
+	{
+		g_mallocFailed = false; // reported by returning null
+		g_free( w );
+		return 0;
+	}
+#endif
 
 	w->stackSize = stackSize;
 	w->allocatedMemoryLimit = WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT;
@@ -316,7 +324,19 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 #endif
 	
 	memset((char*)C, 0, needed);
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	g_mallocFailed = false;
+#endif
 	C->registry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !C->registry.m_mod )
+	{
+		g_mallocFailed = false;
+		w->err = WR_ERR_malloc_failed;
+		g_free( C );
+		return 0;
+	}
+#endif
 
 	C->numLocalFunctions = localFuncs;
 	C->localFunctions = (WRFunction *)((uint8_t *)(C + 1) + (globals * sizeof(WRValue)));
@@ -379,6 +399,17 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 		C->registry.getAsRawValueHashTable(C->localFunctions[i].hash)->wrf = C->localFunctions + i;
 	}
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( g_mallocFailed )
+	{
+		g_mallocFailed = false;
+		w->err = WR_ERR_malloc_failed;
+		C->flags &= ~WRC_OwnsMemory; // as for every other failure here
+		wr_destroyContextEx( C );
+		return 0;
+	}
+#endif
+
 	return C;
 }
 
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 9e52ec4..0fff9e3 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -186,11 +186,22 @@ WRGCObject* WRContext::getSVA( int size, WRGCObjectType type, bool init )
 #endif
 
 	memset( (unsigned char*)ret, 0, sizeof(WRGCObject) );
+
+	// a new hash table links its memory directly after itself, so this must be in the list first
 	ret->m_nextGC = svAllocated;
 	svAllocated = ret;
 
 	allocatedMemoryHint += ret->init( size, type, init ) + sizeof(WRGCObject);
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !ret->m_Cdata )
+	{
+		svAllocated = ret->m_nextGC;
+		g_free( ret );
+		return 0;
+	}
+#endif
+
 	if ( (int)type >= SV_VALUE )
 	{
 		ret->m_creatorContext = this;
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index cd8777b..d8d5169 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -72,6 +72,18 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	return ret;
 }
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+//------------------------------------------------------------------------------
+// stands in for the value/key of an entry there was no memory for
+static WRValue* wr_failedEntry()
+{
+	static WRValue s_failed[2];
+	s_failed[0].init();
+	s_failed[1].init();
+	return s_failed;
+}
+#endif
+
 //------------------------------------------------------------------------------
 WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 {
@@ -94,6 +106,14 @@ WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 	}
 #endif
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( m_hashTable[i] != hash ) // could not grow, leave the other entries alone
+	{
+		if ( index ) { *index = 0; }
+		return wr_failedEntry();
+	}
+#endif
+
 	if ( index ) { *index = i; }
 	return m_Vdata + i;
 }
@@ -142,7 +162,15 @@ void* WRGCObject::get( const uint32_t l, int* index )
 	}
 	else if ( m_type == SV_HASH_TABLE )
 	{
-		s = getIndexOfHit(l, false) << 1;
+		s = getIndexOfHit(l, false);
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( m_hashTable[s] != l ) // could not grow, leave the other entries alone
+		{
+			if ( index ) { *index = 0; }
+			return wr_failedEntry();
+		}
+#endif
+		s <<= 1;
 		ret = m_Vdata + s;
 	}
 	else if ( m_type == SV_VOID_HASH_TABLE )
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 6cf3b4c..0f5d0ad 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -674,6 +674,9 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 #endif
 
 	w->err = WR_ERR_None;
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	g_mallocFailed = false;
+#endif
 
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 01c0b0f..07190b7 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9776,6 +9776,18 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	return ret;
 }
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+//------------------------------------------------------------------------------
+// stands in for the value/key of an entry there was no memory for
+static WRValue* wr_failedEntry()
+{
+	static WRValue s_failed[2];
+	s_failed[0].init();
+	s_failed[1].init();
+	return s_failed;
+}
+#endif
+
 //------------------------------------------------------------------------------
 WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 {
@@ -9798,6 +9810,14 @@ WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 	}
 #endif
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( m_hashTable[i] != hash ) // could not grow, leave the other entries alone
+	{
+		if ( index ) { *index = 0; }
+		return wr_failedEntry();
+	}
+#endif
+
 	if ( index ) { *index = i; }
 	return m_Vdata + i;
 }
@@ -9846,7 +9866,15 @@ void* WRGCObject::get( const uint32_t l, int* index )
 	}
 	else if ( m_type == SV_HASH_TABLE )
 	{
-		s = getIndexOfHit(l, false) << 1;
+		s = getIndexOfHit(l, false);
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( m_hashTable[s] != l ) // could not grow, leave the other entries alone
+		{
+			if ( index ) { *index = 0; }
+			return wr_failedEntry();
+		}
+#endif
+		s <<= 1;
 		ret = m_Vdata + s;
 	}
 	else if ( m_type == SV_VOID_HASH_TABLE )
@@ -10231,11 +10259,22 @@ WRGCObject* WRContext::getSVA( int size, WRGCObjectType type, bool init )
 #endif
 
 	memset( (unsigned char*)ret, 0, sizeof(WRGCObject) );
+
+	// a new hash table links its memory directly after itself, so this must be in the list first
 	ret->m_nextGC = svAllocated;
 	svAllocated = ret;
 
 	allocatedMemoryHint += ret->init( size, type, init ) + sizeof(WRGCObject);
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !ret->m_Cdata )
+	{
+		svAllocated = ret->m_nextGC;
+		g_free( ret );
+		return 0;
+	}
+#endif
+
 	if ( (int)type >= SV_VALUE )
 	{
 		ret->m_creatorContext = this;
@@ -10920,6 +10959,9 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 #endif
 
 	w->err = WR_ERR_None;
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	g_mallocFailed = false;
+#endif
 
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
@@ -13745,6 +13787,14 @@ WRState* wr_newState( int stackSize )
 																		   
 	memset( (unsigned char*)w, 0, sizeof(WRState) );
 	w->globalRegistry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !w->globalRegistry.m_mod )
+	{
+		g_mallocFailed = false; // reported by returning null
+		g_free( w );
+		return 0;
+	}
+#endif
 
 	w->stackSize = stackSize;
 	w->allocatedMemoryLimit = WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT;
@@ -13858,7 +13908,19 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 #endif
 	
 	memset((char*)C, 0, needed);
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	g_mallocFailed = false;
+#endif
 	C->registry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !C->registry.m_mod )
+	{
+		g_mallocFailed = false;
+		w->err = WR_ERR_malloc_failed;
+		g_free( C );
+		return 0;
+	}
+#endif
 
 	C->numLocalFunctions = localFuncs;
 	C->localFunctions = (WRFunction *)((uint8_t *)(C + 1) + (globals * sizeof(WRValue)));
@@ -13921,6 +13983,17 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 		C->registry.getAsRawValueHashTable(C->localFunctions[i].hash)->wrf = C->localFunctions + i;
 	}
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( g_mallocFailed )
+	{
+		g_mallocFailed = false;
+		w->err = WR_ERR_malloc_failed;
+		C->flags &= ~WRC_OwnsMemory; // as for every other failure here
+		wr_destroyContextEx( C );
+		return 0;
+	}
+#endif
+
 	return C;
 }
 
-- 
2.43.0


From f8a7cbd195e08c3ebc6cb602223244b8ac0999ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:39 +0000
Subject: [PATCH 63/98] fix: array growth that fails leaves the array as it was

---
 discrete_src/lib/std_container.cpp | 23 +++++++++++++++------
 discrete_src/vm/index.cpp          |  9 +++++++++
 src/wrench.cpp                     | 32 ++++++++++++++++++++++++------
 3 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index c1c9ec9..c839b7b 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -189,16 +189,22 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+bool wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
 	if ( !count || count > MAX_ARRAY_ELEMENT || (originalSize + count) > (MAX_ARRAY_ELEMENT + 1) )
 	{
-		return;
+		return false;
 	}
 
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size == originalSize )
+	{
+		return false;
+	}
+#endif
 
 	// move tail of array UP "count" entries
 	unsigned int entries = originalSize - where;
@@ -216,6 +222,7 @@ void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int
 	}
 
 	c->gc( stackTop + 1 );
+	return true;
 }
 
 //------------------------------------------------------------------------------
@@ -297,8 +304,10 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	const unsigned int where = A->va->m_size;
 
-	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1].deref();
+	if ( wr_arrayInsertEx(A, where, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[where] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
@@ -312,8 +321,10 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 		return;
 	}
 
-	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1].deref();
+	if ( wr_arrayInsertEx(A, 0, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[0] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 91cfe3b..d41be09 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -167,6 +167,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				if ( !value->va )
 				{
 					value->p2 = INIT_AS_INT;
+					target->init();
 					return;
 				}
 #endif
@@ -179,6 +180,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				if ( !value->va )
 				{
 					value->p2 = INIT_AS_INT;
+					target->init();
 					return;
 				}
 #endif
@@ -198,6 +200,12 @@ boundsFailed:
 			}
 
 			wr_growValueArray( value->va, index->ui );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+			if ( index->ui >= value->va->m_size )
+			{
+				goto boundsFailed;
+			}
+#endif
 		}
 
 		arrayElementToTarget( index->ui, target, value );
@@ -215,6 +223,7 @@ void doIndex_E_I( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 	if ( !V->va )
 	{
 		V->p2 = INIT_AS_INT;
+		target->init();
 		return;
 	}
 #endif
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 07190b7..8c9ae00 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20045,6 +20045,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				if ( !value->va )
 				{
 					value->p2 = INIT_AS_INT;
+					target->init();
 					return;
 				}
 #endif
@@ -20057,6 +20058,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				if ( !value->va )
 				{
 					value->p2 = INIT_AS_INT;
+					target->init();
 					return;
 				}
 #endif
@@ -20076,6 +20078,12 @@ boundsFailed:
 			}
 
 			wr_growValueArray( value->va, index->ui );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+			if ( index->ui >= value->va->m_size )
+			{
+				goto boundsFailed;
+			}
+#endif
 		}
 
 		arrayElementToTarget( index->ui, target, value );
@@ -20093,6 +20101,7 @@ void doIndex_E_I( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 	if ( !V->va )
 	{
 		V->p2 = INIT_AS_INT;
+		target->init();
 		return;
 	}
 #endif
@@ -23514,16 +23523,22 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+bool wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
 	if ( !count || count > MAX_ARRAY_ELEMENT || (originalSize + count) > (MAX_ARRAY_ELEMENT + 1) )
 	{
-		return;
+		return false;
 	}
 
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size == originalSize )
+	{
+		return false;
+	}
+#endif
 
 	// move tail of array UP "count" entries
 	unsigned int entries = originalSize - where;
@@ -23541,6 +23556,7 @@ void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int
 	}
 
 	c->gc( stackTop + 1 );
+	return true;
 }
 
 //------------------------------------------------------------------------------
@@ -23622,8 +23638,10 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	const unsigned int where = A->va->m_size;
 
-	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1].deref();
+	if ( wr_arrayInsertEx(A, where, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[where] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
@@ -23637,8 +23655,10 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 		return;
 	}
 
-	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1].deref();
+	if ( wr_arrayInsertEx(A, 0, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[0] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ddcc5c7acdcb8b0ea229fcf4d9e7d66cdb1d4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:02 +0000
Subject: [PATCH 64/98] fix: a serializer that could not grow does not write
 past its buffer

---
 discrete_src/utils/serializer.h | 5 +++--
 src/wrench.cpp                  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/discrete_src/utils/serializer.h b/discrete_src/utils/serializer.h
index 5cd5cf5..eb5aa6f 100644
--- a/discrete_src/utils/serializer.h
+++ b/discrete_src/utils/serializer.h
@@ -97,8 +97,8 @@ public:
 
 		if ( m_pos + size >= m_size )
 		{
-			m_size += (size*2) + 8;
-			char* newBuf = (char*)g_malloc( m_size );
+			unsigned int newSize = m_size + (size*2) + 8;
+			char* newBuf = (char*)g_malloc( newSize );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !newBuf )
 			{
@@ -112,6 +112,7 @@ public:
 			}
 			g_free( m_buf );
 			m_buf = newBuf;
+			m_size = newSize;
 		}
 
 		memcpy( m_buf + m_pos, data, size );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8c9ae00..4f9a4c2 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -581,8 +581,8 @@ public:
 
 		if ( m_pos + size >= m_size )
 		{
-			m_size += (size*2) + 8;
-			char* newBuf = (char*)g_malloc( m_size );
+			unsigned int newSize = m_size + (size*2) + 8;
+			char* newBuf = (char*)g_malloc( newSize );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !newBuf )
 			{
@@ -596,6 +596,7 @@ public:
 			}
 			g_free( m_buf );
 			m_buf = newBuf;
+			m_size = newSize;
 		}
 
 		memcpy( m_buf + m_pos, data, size );
-- 
2.43.0


From 20faadaee8254250e18b6b44ed899f94739ba386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:57 +0000
Subject: [PATCH 65/98] fix: values whose array or table could not be allocated
 stay integers

---
 discrete_src/lib/std_serialize.cpp |  1 +
 discrete_src/vm/index.cpp          |  1 +
 discrete_src/vm/vm.cpp             | 12 ++++++++++--
 src/wrench.cpp                     | 14 ++++++++++++--
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_serialize.cpp b/discrete_src/lib/std_serialize.cpp
index 37edd51..b0eeda7 100644
--- a/discrete_src/lib/std_serialize.cpp
+++ b/discrete_src/lib/std_serialize.cpp
@@ -37,6 +37,7 @@ void wr_stdSerialize( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
 			{
+				g_free( buf );
 				return;
 			}
 #endif
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index d41be09..af3636a 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -112,6 +112,7 @@ void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 	if ( !value->va )
 	{
 		value->p2 = INIT_AS_INT;
+		target->init();
 		return;
 	}
 #endif
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 0f5d0ad..4ac5884 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -828,8 +828,15 @@ yieldContinue:
 			{
 				register0 = &(--stackTop)->singleValue();
 				register1 = &(stackTop - 1)->deref();
-				register1->p2 = INIT_AS_ARRAY;
 				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+				if ( !register1->va )
+				{
+					register1->p2 = INIT_AS_INT;
+					CONTINUE;
+				}
+#endif
+				register1->p2 = INIT_AS_ARRAY;
 				context->gc( stackTop );
 				CONTINUE;
 			}
@@ -1389,14 +1396,15 @@ hashIndexJump:
 				pc += 4;
 				if ( !EXPECTS_HASH_INDEX(register0->xtype) )
 				{
-					register0->p2 = INIT_AS_HASH_TABLE;
 					register0->va = context->getSVA( 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !register0->va )
 					{
+						register0->p2 = INIT_AS_INT;
 						CONTINUE;
 					}
 #endif
+					register0->p2 = INIT_AS_HASH_TABLE;
 					context->gc(stackTop);
 				}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4f9a4c2..4f8bbf7 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11114,8 +11114,15 @@ yieldContinue:
 			{
 				register0 = &(--stackTop)->singleValue();
 				register1 = &(stackTop - 1)->deref();
-				register1->p2 = INIT_AS_ARRAY;
 				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+				if ( !register1->va )
+				{
+					register1->p2 = INIT_AS_INT;
+					CONTINUE;
+				}
+#endif
+				register1->p2 = INIT_AS_ARRAY;
 				context->gc( stackTop );
 				CONTINUE;
 			}
@@ -11675,14 +11682,15 @@ hashIndexJump:
 				pc += 4;
 				if ( !EXPECTS_HASH_INDEX(register0->xtype) )
 				{
-					register0->p2 = INIT_AS_HASH_TABLE;
 					register0->va = context->getSVA( 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !register0->va )
 					{
+						register0->p2 = INIT_AS_INT;
 						CONTINUE;
 					}
 #endif
+					register0->p2 = INIT_AS_HASH_TABLE;
 					context->gc(stackTop);
 				}
 
@@ -19991,6 +19999,7 @@ void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 	if ( !value->va )
 	{
 		value->p2 = INIT_AS_INT;
+		target->init();
 		return;
 	}
 #endif
@@ -23298,6 +23307,7 @@ void wr_stdSerialize( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
 			{
+				g_free( buf );
 				return;
 			}
 #endif
-- 
2.43.0


From 02eb0537a1b65e7c671b32c8e4c3876e4826c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:56 +0000
Subject: [PATCH 66/98] fix: a failed allocation ends the program at the
 instruction it happens on

---
 discrete_src/vm/vm.cpp | 6 +++---
 src/wrench.cpp         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 4ac5884..9685031 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -222,14 +222,14 @@ int wr_slicesUsedLastCall( WRState* w )
 #endif
 
 //------------------------------------------------------------------------------
-// FASTCONTINUE for when malloc could not have been called so no need to check
+// FASTCONTINUE for simple instructions, string addition shares code with some of them so malloc is checked here too
 #ifdef WRENCH_JUMPTABLE_INTERPRETER
  #define CONTINUE { DEBUG_PER_INSTRUCTION; MALLOC_FAIL_CHECK; goto *opcodeJumptable[READ_8_FROM_PC(pc++)];  }
- #define FASTCONTINUE { DEBUG_PER_INSTRUCTION; goto *opcodeJumptable[READ_8_FROM_PC(pc++)];  }
+ #define FASTCONTINUE { DEBUG_PER_INSTRUCTION; MALLOC_FAIL_CHECK; goto *opcodeJumptable[READ_8_FROM_PC(pc++)];  }
  #define CASE(LABEL) LABEL
 #else
  #define CONTINUE { DEBUG_PER_INSTRUCTION; MALLOC_FAIL_CHECK; continue; }
- #define FASTCONTINUE { DEBUG_PER_INSTRUCTION; continue; }
+ #define FASTCONTINUE { DEBUG_PER_INSTRUCTION; MALLOC_FAIL_CHECK; continue; }
  #define CASE(LABEL) case O_##LABEL
 #endif
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4f8bbf7..6afe9f6 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10508,14 +10508,14 @@ int wr_slicesUsedLastCall( WRState* w )
 #endif
 
 //------------------------------------------------------------------------------
-// FASTCONTINUE for when malloc could not have been called so no need to check
+// FASTCONTINUE for simple instructions, string addition shares code with some of them so malloc is checked here too
 #ifdef WRENCH_JUMPTABLE_INTERPRETER
  #define CONTINUE { DEBUG_PER_INSTRUCTION; MALLOC_FAIL_CHECK; goto *opcodeJumptable[READ_8_FROM_PC(pc++)];  }
- #define FASTCONTINUE { DEBUG_PER_INSTRUCTION; goto *opcodeJumptable[READ_8_FROM_PC(pc++)];  }
+ #define FASTCONTINUE { DEBUG_PER_INSTRUCTION; MALLOC_FAIL_CHECK; goto *opcodeJumptable[READ_8_FROM_PC(pc++)];  }
  #define CASE(LABEL) LABEL
 #else
  #define CONTINUE { DEBUG_PER_INSTRUCTION; MALLOC_FAIL_CHECK; continue; }
- #define FASTCONTINUE { DEBUG_PER_INSTRUCTION; continue; }
+ #define FASTCONTINUE { DEBUG_PER_INSTRUCTION; MALLOC_FAIL_CHECK; continue; }
  #define CASE(LABEL) case O_##LABEL
 #endif
 
-- 
2.43.0


From 65c0414a162e2d7a2fb9e82561365de362087f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 67/98] fix: a label ending in :: is an error, not an out of
 bounds read

---
 discrete_src/cc/cc.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 25d6581..87bd8c6 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -261,7 +261,7 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 		}
 	}
 
-	if ( foundColon && token[token.size() - 1] == ':' )
+	if ( foundColon && (!token.size() || token[token.size() - 1] == ':') )
 	{
 		return false;
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6afe9f6..8c186bd 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -3312,7 +3312,7 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 		}
 	}
 
-	if ( foundColon && token[token.size() - 1] == ':' )
+	if ( foundColon && (!token.size() || token[token.size() - 1] == ':') )
 	{
 		return false;
 	}
-- 
2.43.0


From 9e556551ea22ae13c2c47d365f3a572a16c4cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 68/98] fix: the tokenizer stays inside the source and reports
 malformed numbers

---
 discrete_src/cc/token.cpp | 18 ++++++++++++------
 src/wrench.cpp            | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index 2f2a0fc..629aeb9 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -309,13 +309,13 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 					else if (c == '\\')
 					{
-						c = m_source[++m_pos];
-						if (m_pos >= m_sourceLen)
+						if (++m_pos >= m_sourceLen)
 						{
 							m_err = WR_ERR_unterminated_string_literal;
 							m_EOF = true;
 							return false;
 						}
+						c = m_source[m_pos];
 
 						if (c == '\\') // escaped slash
 						{
@@ -323,8 +323,12 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						}
 						else if (c == '0')
 						{
-							token += atoi(m_source + m_pos);
-							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos);
+							unsigned int code = 0;
+							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos)
+							{
+								code = code * 10 + (m_source[m_pos] - '0');
+							}
+							token += (char)code;
 							--m_pos;
 						}
 						else if (c == '\"')
@@ -387,7 +391,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						}
 						else if ( m_source[m_pos] == '*' )
 						{
-							for( ; (m_pos+1)<m_sourceLen
+							for( ++m_pos; (m_pos+1)<m_sourceLen
 								 && !(m_source[m_pos] == '*' && m_source[m_pos+1] == '/');
 								 ++m_pos ); // find end of comment
 
@@ -416,6 +420,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 			{
 				if ( m_pos >= m_sourceLen )
 				{
+					m_err = WR_ERR_unexpected_EOF;
 					return false;
 				}
 
@@ -509,6 +514,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						{
 							if ( decimal )
 							{
+								m_err = WR_ERR_bad_expression;
 								return false;
 							}
 
@@ -540,7 +546,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 				}
 			}
-			else if ( token[0] == ':' && isspace(m_source[m_pos]) )
+			else if ( token[0] == ':' && (m_pos < m_sourceLen) && isspace(m_source[m_pos]) )
 			{
 				
 			}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8c186bd..64478db 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9401,13 +9401,13 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 					else if (c == '\\')
 					{
-						c = m_source[++m_pos];
-						if (m_pos >= m_sourceLen)
+						if (++m_pos >= m_sourceLen)
 						{
 							m_err = WR_ERR_unterminated_string_literal;
 							m_EOF = true;
 							return false;
 						}
+						c = m_source[m_pos];
 
 						if (c == '\\') // escaped slash
 						{
@@ -9415,8 +9415,12 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						}
 						else if (c == '0')
 						{
-							token += atoi(m_source + m_pos);
-							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos);
+							unsigned int code = 0;
+							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos)
+							{
+								code = code * 10 + (m_source[m_pos] - '0');
+							}
+							token += (char)code;
 							--m_pos;
 						}
 						else if (c == '\"')
@@ -9479,7 +9483,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						}
 						else if ( m_source[m_pos] == '*' )
 						{
-							for( ; (m_pos+1)<m_sourceLen
+							for( ++m_pos; (m_pos+1)<m_sourceLen
 								 && !(m_source[m_pos] == '*' && m_source[m_pos+1] == '/');
 								 ++m_pos ); // find end of comment
 
@@ -9508,6 +9512,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 			{
 				if ( m_pos >= m_sourceLen )
 				{
+					m_err = WR_ERR_unexpected_EOF;
 					return false;
 				}
 
@@ -9601,6 +9606,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						{
 							if ( decimal )
 							{
+								m_err = WR_ERR_bad_expression;
 								return false;
 							}
 
@@ -9632,7 +9638,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 				}
 			}
-			else if ( token[0] == ':' && isspace(m_source[m_pos]) )
+			else if ( token[0] == ':' && (m_pos < m_sourceLen) && isspace(m_source[m_pos]) )
 			{
 				
 			}
-- 
2.43.0


From 5fe2479a0a940443c5eea6214a5064bc4c9aa553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:08 +0000
Subject: [PATCH 69/98] fix: a string literal that was read ahead keeps its
 text

---
 discrete_src/cc/expression.cpp | 2 +-
 discrete_src/cc/token.cpp      | 1 -
 src/wrench.cpp                 | 3 +--
 3 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index c021b9d..febd746 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -93,7 +93,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 			expression.context[depth].type = EXTYPE_LITERAL;
 			if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
 			{
-				expression.context[depth].literalString = *(WRstr*)value.p;
+				expression.context[depth].literalString = token; // the value might have been read into another context
 			}
 			
 			++depth;
diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index 629aeb9..42e5d14 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -374,7 +374,6 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 				{
 					value.p2 = INIT_AS_INT;
 					value.type = (WRValueType)WR_COMPILER_LITERAL_STRING;
-					value.p = &token;
 				}
 			}
 			else if ( token[0] == '/' ) // might be a comment
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 64478db..41291ca 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -6966,7 +6966,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 			expression.context[depth].type = EXTYPE_LITERAL;
 			if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
 			{
-				expression.context[depth].literalString = *(WRstr*)value.p;
+				expression.context[depth].literalString = token; // the value might have been read into another context
 			}
 			
 			++depth;
@@ -9466,7 +9466,6 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 				{
 					value.p2 = INIT_AS_INT;
 					value.type = (WRValueType)WR_COMPILER_LITERAL_STRING;
-					value.p = &token;
 				}
 			}
 			else if ( token[0] == '/' ) // might be a comment
-- 
2.43.0


From 116e528859f9e3ae3b93e094f0bd9a07a444acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:28 +0000
Subject: [PATCH 70/98] fix: indexing with a float gives a value

---
 discrete_src/vm/index.cpp | 2 +-
 src/wrench.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index af3636a..43d2734 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -259,7 +259,7 @@ void doIndex_E_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 }
 
 
-void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) {}
+void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { target->init(); }
 
 void doIndex_R_R( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { wr_index[(index->r->type<<2)|value->r->type](c, index->r, value->r, target); }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 41291ca..3d72ba1 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20151,7 +20151,7 @@ void doIndex_E_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 }
 
 
-void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) {}
+void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { target->init(); }
 
 void doIndex_R_R( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { wr_index[(index->r->type<<2)|value->r->type](c, index->r, value->r, target); }
 
-- 
2.43.0


From 525a7f1a362b5fad35e5582b3f3f8a44b273a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:04 +0000
Subject: [PATCH 71/98] fix: removing a character from a string with _remove

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 9685031..3d3ba66 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1247,7 +1247,7 @@ callFunction:
 							va->m_Vdata[move] = va->m_Vdata[move+1];
 						}
 					}
-					else if ( register0->va->m_type == SV_CHAR )
+					else if ( va->m_type == SV_CHAR )
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
 						{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3d72ba1..f048997 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11538,7 +11538,7 @@ callFunction:
 							va->m_Vdata[move] = va->m_Vdata[move+1];
 						}
 					}
-					else if ( register0->va->m_type == SV_CHAR )
+					else if ( va->m_type == SV_CHAR )
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
 						{
-- 
2.43.0


From 0c8affdd0f13f6db56230493bf59f8721a14807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:22 +0000
Subject: [PATCH 72/98] fix: _exists of a table that is itself on the stack

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 3d3ba66..97743dc 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1265,8 +1265,8 @@ callFunction:
 				register0 = --stackTop;
 				register1 = (stackTop - 1);
 				register2 = &(register1->deref());
-				register1->p2 = INIT_AS_INT;
 				register1->i = ((register2->xtype == WR_EX_HASH_TABLE) && register2->va->exists(register0->getHash(), false)) ? 1 : 0;
+				register1->p2 = INIT_AS_INT;
 				
 				FASTCONTINUE;	
 			}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f048997..30aec11 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11556,8 +11556,8 @@ callFunction:
 				register0 = --stackTop;
 				register1 = (stackTop - 1);
 				register2 = &(register1->deref());
-				register1->p2 = INIT_AS_INT;
 				register1->i = ((register2->xtype == WR_EX_HASH_TABLE) && register2->va->exists(register0->getHash(), false)) ? 1 : 0;
+				register1->p2 = INIT_AS_INT;
 				
 				FASTCONTINUE;	
 			}
-- 
2.43.0


From f3c972e6f93d71c00526430346dd8f556bf4445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:19 +0000
Subject: [PATCH 73/98] fix: array::clear( x, x ) reads the size before it
 replaces x

---
 discrete_src/lib/std_container.cpp | 3 +--
 src/wrench.cpp                     | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index c839b7b..f55e815 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -59,8 +59,6 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 
 		WRValue* A = &(args->deref());
 
-		A->p2 = INIT_AS_ARRAY;
-
 		unsigned int count = 0;
 		if ( argn > 1 )
 		{
@@ -71,6 +69,7 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 			}
 		}
 		
+		A->p2 = INIT_AS_ARRAY;
 		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 30aec11..9e695cb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23409,8 +23409,6 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 
 		WRValue* A = &(args->deref());
 
-		A->p2 = INIT_AS_ARRAY;
-
 		unsigned int count = 0;
 		if ( argn > 1 )
 		{
@@ -23421,6 +23419,7 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 			}
 		}
 		
+		A->p2 = INIT_AS_ARRAY;
 		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
-- 
2.43.0


From c0720318ec52c87758e1c2d20fc56cc1a4a2c776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:50 +0000
Subject: [PATCH 74/98] fix: x.y with x not yet a table does not collect
 through a dead stack value

---
 discrete_src/vm/vm.cpp | 2 ++
 src/wrench.cpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 97743dc..8e34f82 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1377,6 +1377,7 @@ callFunction:
 			{
 				register0 = &(globalSpace + READ_8_FROM_PC(pc++))->deref();
 				register1 = stackTop++;
+				register1->p2 = INIT_AS_INT; // whatever was here must not be collected as if it were live
 				goto hashIndexJump;
 			}
 
@@ -1384,6 +1385,7 @@ callFunction:
 			{
 				register0 = &(frameBase + READ_8_FROM_PC(pc++))->deref();
 				register1 = stackTop++;
+				register1->p2 = INIT_AS_INT; // whatever was here must not be collected as if it were live
 				goto hashIndexJump;
 			}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 9e695cb..af9648d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11668,6 +11668,7 @@ callFunction:
 			{
 				register0 = &(globalSpace + READ_8_FROM_PC(pc++))->deref();
 				register1 = stackTop++;
+				register1->p2 = INIT_AS_INT; // whatever was here must not be collected as if it were live
 				goto hashIndexJump;
 			}
 
@@ -11675,6 +11676,7 @@ callFunction:
 			{
 				register0 = &(frameBase + READ_8_FROM_PC(pc++))->deref();
 				register1 = stackTop++;
+				register1->p2 = INIT_AS_INT; // whatever was here must not be collected as if it were live
 				goto hashIndexJump;
 			}
 
-- 
2.43.0


From f66f7f14ae339460b462cdccec64bcc9d0bf3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:39 +0000
Subject: [PATCH 75/98] fix: a[a[n]] when the outer index grows the array

---
 discrete_src/vm/index.cpp | 7 +++++--
 src/wrench.cpp            | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 43d2734..46affbc 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -200,13 +200,16 @@ boundsFailed:
 				return;
 			}
 
-			wr_growValueArray( value->va, index->ui );
+			const uint32_t element = index->ui; // the index might itself be an element of this array
+			wr_growValueArray( value->va, element );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-			if ( index->ui >= value->va->m_size )
+			if ( element >= value->va->m_size )
 			{
 				goto boundsFailed;
 			}
 #endif
+			arrayElementToTarget( element, target, value );
+			return;
 		}
 
 		arrayElementToTarget( index->ui, target, value );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index af9648d..2854854 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20094,13 +20094,16 @@ boundsFailed:
 				return;
 			}
 
-			wr_growValueArray( value->va, index->ui );
+			const uint32_t element = index->ui; // the index might itself be an element of this array
+			wr_growValueArray( value->va, element );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-			if ( index->ui >= value->va->m_size )
+			if ( element >= value->va->m_size )
 			{
 				goto boundsFailed;
 			}
 #endif
+			arrayElementToTarget( element, target, value );
+			return;
 		}
 
 		arrayElementToTarget( index->ui, target, value );
-- 
2.43.0


From 72fa366f61510ce90c47f5769fa7c0c42960c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:44 +0000
Subject: [PATCH 76/98] fix: integer operators on floats give a value

---
 discrete_src/vm/operations_non_compact.cpp | 2 +-
 src/wrench.cpp                             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 394667d..33e18bb 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -698,7 +698,7 @@ WRTargetFunc wr_AdditionBinary[16] =
 };
 
 
-void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
+void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) { target->init(); }
 
 //------------------------------------------------------------------------------
 #define X_INT_BINARY( NAME, OPERATION ) \
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2854854..030a26e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19647,7 +19647,7 @@ WRTargetFunc wr_AdditionBinary[16] =
 };
 
 
-void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
+void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) { target->init(); }
 
 //------------------------------------------------------------------------------
 #define X_INT_BINARY( NAME, OPERATION ) \
-- 
2.43.0


From 2f78fd91cd1c8d88f06ba1ade3a4edc9762f1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:58 +0000
Subject: [PATCH 77/98] fix: adding two containers gives a value

---
 discrete_src/vm/operations_compact.cpp     | 10 ++++++++--
 discrete_src/vm/operations_non_compact.cpp |  4 ++--
 src/wrench.cpp                             | 14 ++++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index 7efa793..57e881a 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -177,9 +177,15 @@ void FuncBinary_E_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall
 		WRValue& V2 = from->deref();
 		wr_funcBinary[(V1.type<<2)|V2.type](&V1, &V2, target, intCall, floatCall );
 	}
-	else if ( intCall == wr_addI )
+	else if ( intCall != wr_addI )
 	{
-		wr_concatStringCheck( to, from, target );
+		WRValue& V1 = to->singleValue();
+		WRValue& V2 = from->singleValue();
+		wr_funcBinary[(V1.type<<2)|V2.type](&V1, &V2, target, intCall, floatCall );
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
+	{
+		target->init();
 	}
 }
 void FuncBinary_X_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall intCall, WRFuncFloatCall floatCall  )
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 33e18bb..939fe52 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -660,9 +660,9 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 		WRValue& V2 = from->deref();
 		wr_AdditionBinary[(V1.type<<2)|V2.type](&V1, &V2, target);
 	}
-	else
+	else if ( !wr_concatStringCheck(to, from, target) )
 	{
-		wr_concatStringCheck( to, from, target );
+		target->init();
 	}
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 030a26e..4f149dc 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18839,9 +18839,15 @@ void FuncBinary_E_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall
 		WRValue& V2 = from->deref();
 		wr_funcBinary[(V1.type<<2)|V2.type](&V1, &V2, target, intCall, floatCall );
 	}
-	else if ( intCall == wr_addI )
+	else if ( intCall != wr_addI )
 	{
-		wr_concatStringCheck( to, from, target );
+		WRValue& V1 = to->singleValue();
+		WRValue& V2 = from->singleValue();
+		wr_funcBinary[(V1.type<<2)|V2.type](&V1, &V2, target, intCall, floatCall );
+	}
+	else if ( !wr_concatStringCheck(to, from, target) )
+	{
+		target->init();
 	}
 }
 void FuncBinary_X_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall intCall, WRFuncFloatCall floatCall  )
@@ -19609,9 +19615,9 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 		WRValue& V2 = from->deref();
 		wr_AdditionBinary[(V1.type<<2)|V2.type](&V1, &V2, target);
 	}
-	else
+	else if ( !wr_concatStringCheck(to, from, target) )
 	{
-		wr_concatStringCheck( to, from, target );
+		target->init();
 	}
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
-- 
2.43.0


From a52f1304c7c62dacf58895a6c6ec63072aeb1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:41 +0000
Subject: [PATCH 78/98] fix: std::rand over the whole integer range

---
 discrete_src/lib/std.cpp | 8 +++++++-
 src/wrench.cpp           | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index ee1c8a2..f808c10 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -197,7 +197,13 @@ const int32_t wr_randEx( const int32_t from, const int32_t to )
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
-	return (from >= to) ? from : ((uint32_t)wr_Seed % ((to - from) + 1)) + from;
+	const uint32_t range = (uint32_t)to - (uint32_t)from + 1; // zero when every integer is in range
+	if ( from < to )
+	{
+		return (int32_t)((range ? ((uint32_t)wr_Seed % range) : (uint32_t)wr_Seed) + (uint32_t)from);
+	}
+
+	return from;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4f149dc..9ec800c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20396,7 +20396,13 @@ const int32_t wr_randEx( const int32_t from, const int32_t to )
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
-	return (from >= to) ? from : ((uint32_t)wr_Seed % ((to - from) + 1)) + from;
+	const uint32_t range = (uint32_t)to - (uint32_t)from + 1; // zero when every integer is in range
+	if ( from < to )
+	{
+		return (int32_t)((range ? ((uint32_t)wr_Seed % range) : (uint32_t)wr_Seed) + (uint32_t)from);
+	}
+
+	return from;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 7ce5c22ff54cf2021e08b743a9560af77f054afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:23 +0000
Subject: [PATCH 79/98] fix: formatting exactly 80 characters lost the last one

---
 discrete_src/wrench.h | 4 ++--
 src/wrench.h          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index de6a8cc..3a42129 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -2035,7 +2035,7 @@ WRstr& WRstr::format( const char* format, ... )
 	int len = vsnprintf( buf, c_formatBaseTrySize, format, arg );
 	va_end( arg );
 
-	if ( len < c_formatBaseTrySize+1 )
+	if ( len < c_formatBaseTrySize )
 	{
 		set( buf, len );
 	}
@@ -2063,7 +2063,7 @@ WRstr& WRstr::appendFormat( const char* format, ... )
 	int len = vsnprintf( buf, c_formatBaseTrySize, format, arg );
 	va_end( arg );
 
-	if ( len < c_formatBaseTrySize+1 )
+	if ( len < c_formatBaseTrySize )
 	{
 		insert( buf, len, m_len );
 	}
diff --git a/src/wrench.h b/src/wrench.h
index f6a8679..0a59a3c 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -2036,7 +2036,7 @@ WRstr& WRstr::format( const char* format, ... )
 	int len = vsnprintf( buf, c_formatBaseTrySize, format, arg );
 	va_end( arg );
 
-	if ( len < c_formatBaseTrySize+1 )
+	if ( len < c_formatBaseTrySize )
 	{
 		set( buf, len );
 	}
@@ -2064,7 +2064,7 @@ WRstr& WRstr::appendFormat( const char* format, ... )
 	int len = vsnprintf( buf, c_formatBaseTrySize, format, arg );
 	va_end( arg );
 
-	if ( len < c_formatBaseTrySize+1 )
+	if ( len < c_formatBaseTrySize )
 	{
 		insert( buf, len, m_len );
 	}
-- 
2.43.0


From 86c1f0bb8c419fcc0b303f6887901d0bd5288c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:46 +0000
Subject: [PATCH 80/98] fix: x /= 0 is trapped when x is an element or a
 variable reference

---
 discrete_src/vm/vm.cpp | 4 ++--
 src/wrench.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 8e34f82..fb77c2a 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -3209,7 +3209,7 @@ binaryTableOp:
 				register1 = stackTop - 1;
 				voidFunc[(register0->type<<2)|register1->type]( register0, register1 );
 #ifdef WRENCH_TRAP_DIVISION_BY_ZERO
-				if ( IS_INVALID(register0->p2) )
+				if ( IS_INVALID(register0->deref().p2) ) // the result is what it refers to
 				{
 					w->err = WR_ERR_division_by_zero;
 					return 0;
@@ -3237,7 +3237,7 @@ binaryTableOpAndPop:
 				register1 = --stackTop;
 				voidFunc[(register0->type<<2)|register1->type]( register0, register1 );
 #ifdef WRENCH_TRAP_DIVISION_BY_ZERO
-				if ( IS_INVALID(register0->p2) )
+				if ( IS_INVALID(register0->deref().p2) )
 				{
 					w->err = WR_ERR_division_by_zero;
 					return 0;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 9ec800c..2fe3ba5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -13500,7 +13500,7 @@ binaryTableOp:
 				register1 = stackTop - 1;
 				voidFunc[(register0->type<<2)|register1->type]( register0, register1 );
 #ifdef WRENCH_TRAP_DIVISION_BY_ZERO
-				if ( IS_INVALID(register0->p2) )
+				if ( IS_INVALID(register0->deref().p2) ) // the result is what it refers to
 				{
 					w->err = WR_ERR_division_by_zero;
 					return 0;
@@ -13528,7 +13528,7 @@ binaryTableOpAndPop:
 				register1 = --stackTop;
 				voidFunc[(register0->type<<2)|register1->type]( register0, register1 );
 #ifdef WRENCH_TRAP_DIVISION_BY_ZERO
-				if ( IS_INVALID(register0->p2) )
+				if ( IS_INVALID(register0->deref().p2) )
 				{
 					w->err = WR_ERR_division_by_zero;
 					return 0;
-- 
2.43.0


From f8f566e77114176b5337b5ffb5bc927ae2ab6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:05 +0000
Subject: [PATCH 81/98] fix: wr_getGlobalRef finds globals with names longer
 than 61 characters

---
 discrete_src/utils/utils.cpp | 4 +---
 src/wrench.cpp               | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index e47e13d..dca197a 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1197,7 +1197,6 @@ WRFunction* wr_getFunction( WRContext* context, const uint32_t functionHash )
 //------------------------------------------------------------------------------
 WRValue* wr_getGlobalRef( WRContext* context, const char* label )
 {
-	char globalLabel[64] = "::";
 	if ( !label || !(READ_8_FROM_PC(context->bottom + 2) & WR_INCLUDE_GLOBALS) )
 	{
 		return 0;
@@ -1209,8 +1208,7 @@ WRValue* wr_getGlobalRef( WRContext* context, const char* label )
 	}
 	else
 	{
-		strncpy( globalLabel + 2, label, 61 );
-		match = wr_hashStr( globalLabel );
+		match = wr_hashStr( label, wr_hashStr("::") );
 	}
 
 	const unsigned char* symbolsBlock = context->bottom + 3 + (context->numLocalFunctions * WR_FUNCTION_CORE_SIZE);
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2fe3ba5..b653c2a 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14797,7 +14797,6 @@ WRFunction* wr_getFunction( WRContext* context, const uint32_t functionHash )
 //------------------------------------------------------------------------------
 WRValue* wr_getGlobalRef( WRContext* context, const char* label )
 {
-	char globalLabel[64] = "::";
 	if ( !label || !(READ_8_FROM_PC(context->bottom + 2) & WR_INCLUDE_GLOBALS) )
 	{
 		return 0;
@@ -14809,8 +14808,7 @@ WRValue* wr_getGlobalRef( WRContext* context, const char* label )
 	}
 	else
 	{
-		strncpy( globalLabel + 2, label, 61 );
-		match = wr_hashStr( globalLabel );
+		match = wr_hashStr( label, wr_hashStr("::") );
 	}
 
 	const unsigned char* symbolsBlock = context->bottom + 3 + (context->numLocalFunctions * WR_FUNCTION_CORE_SIZE);
-- 
2.43.0


From 450a1ad07407f353b8b818c7dc6f2f2be1d97091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:53 +0000
Subject: [PATCH 82/98] fix: math::pow, math::fmod and math::ldexp took their
 arguments in reverse

---
 discrete_src/lib/std_math.cpp | 6 +++---
 src/wrench.cpp                | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_math.cpp b/discrete_src/lib/std_math.cpp
index daf644d..811d798 100644
--- a/discrete_src/lib/std_math.cpp
+++ b/discrete_src/lib/std_math.cpp
@@ -202,7 +202,7 @@ void wr_math_pow( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = powf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = powf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -212,7 +212,7 @@ void wr_math_fmod( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = fmodf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = fmodf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -232,7 +232,7 @@ void wr_math_ldexp( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = ldexpf( (stackTop - 1)->asFloat(), (stackTop - 2)->asInt() );
+		stackTop->f = ldexpf( (stackTop - 2)->asFloat(), (stackTop - 1)->asInt() );
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b653c2a..c580e8b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22957,7 +22957,7 @@ void wr_math_pow( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = powf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = powf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -22967,7 +22967,7 @@ void wr_math_fmod( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = fmodf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = fmodf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -22987,7 +22987,7 @@ void wr_math_ldexp( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = ldexpf( (stackTop - 1)->asFloat(), (stackTop - 2)->asInt() );
+		stackTop->f = ldexpf( (stackTop - 2)->asFloat(), (stackTop - 1)->asInt() );
 	}
 }
 
-- 
2.43.0


From 8562ce6b1dbb3d9906d3d6aa797c0f123a0bff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:10 +0000
Subject: [PATCH 83/98] fix: io::readFile leaked its descriptor on empty files,
 io::deleteFile used a freed name

---
 discrete_src/lib/std_io.cpp | 11 ++++-------
 src/wrench.cpp              | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 1dd3387..156aa74 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -81,17 +81,14 @@ void wr_read_file( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !stackTop->va )
 				{
+					fclose( infil );
 					return;
 				}
 #endif
 				stackTop->p2 = INIT_AS_ARRAY;
-				if ( fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1 )
-				{
-					return;
-				}
+				stackTop->va->m_size = (uint32_t)fread( stackTop->va->m_Cdata, 1, sbuf.st_size, infil );
+				fclose( infil );
 			}
-
-			fclose( infil );
 		}
 	}
 }
@@ -127,7 +124,7 @@ void wr_delete_file( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn == 1 )
 	{
-		const char* filename = WRValue::MallocStrScoped(*(stackTop - 1));
+		WRValue::MallocStrScoped filename( *(stackTop - 1) );
 		if ( filename )
 		{
 #if defined(WRENCH_WIN32_FILE_IO)
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c580e8b..2ce5b40 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20571,17 +20571,14 @@ void wr_read_file( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !stackTop->va )
 				{
+					fclose( infil );
 					return;
 				}
 #endif
 				stackTop->p2 = INIT_AS_ARRAY;
-				if ( fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1 )
-				{
-					return;
-				}
+				stackTop->va->m_size = (uint32_t)fread( stackTop->va->m_Cdata, 1, sbuf.st_size, infil );
+				fclose( infil );
 			}
-
-			fclose( infil );
 		}
 	}
 }
@@ -20617,7 +20614,7 @@ void wr_delete_file( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn == 1 )
 	{
-		const char* filename = WRValue::MallocStrScoped(*(stackTop - 1));
+		WRValue::MallocStrScoped filename( *(stackTop - 1) );
 		if ( filename )
 		{
 #if defined(WRENCH_WIN32_FILE_IO)
-- 
2.43.0


From 462fa0be26d39bcbfdd04bcb2fa137865061b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:27 +0000
Subject: [PATCH 84/98] fix: io::open honours its mode argument

---
 discrete_src/lib/std_io.cpp | 6 +++---
 src/wrench.cpp              | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 156aa74..8b17241 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -177,13 +177,13 @@ void wr_ioOpen( WRValue* stackTop, const int argn, WRContext* c )
 
 		if ( fileName )
 		{
-			int mode = (argn > 1) ? args[1].asInt() : O_RDWR | O_CREAT;
+			int flags = (argn > 1) ? args[1].asInt() : O_RDWR | O_CREAT;
 			
 #if defined(WRENCH_WIN32_FILE_IO)
-			stackTop->i = _open( fileName, mode | O_BINARY, _S_IREAD | _S_IWRITE /*0600*/ );
+			stackTop->i = _open( fileName, flags | O_BINARY, _S_IREAD | _S_IWRITE /*0600*/ );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = open( fileName, mode, 0666 );
+			stackTop->i = open( fileName, flags, (argn > 2) ? args[2].asInt() : 0666 );
 #endif
 		}
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2ce5b40..c797e22 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20667,13 +20667,13 @@ void wr_ioOpen( WRValue* stackTop, const int argn, WRContext* c )
 
 		if ( fileName )
 		{
-			int mode = (argn > 1) ? args[1].asInt() : O_RDWR | O_CREAT;
+			int flags = (argn > 1) ? args[1].asInt() : O_RDWR | O_CREAT;
 			
 #if defined(WRENCH_WIN32_FILE_IO)
-			stackTop->i = _open( fileName, mode | O_BINARY, _S_IREAD | _S_IWRITE /*0600*/ );
+			stackTop->i = _open( fileName, flags | O_BINARY, _S_IREAD | _S_IWRITE /*0600*/ );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = open( fileName, mode, 0666 );
+			stackTop->i = open( fileName, flags, (argn > 2) ? args[2].asInt() : 0666 );
 #endif
 		}
 	}
-- 
2.43.0


From 871bfc0b0fc252af5e470f87dfcd04fdffa95c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:43 +0000
Subject: [PATCH 85/98] fix: io::getline dropped a character of lines longer
 than 256

---
 discrete_src/lib/std_io.cpp | 5 +++++
 src/wrench.cpp              | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 8b17241..93bd602 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -148,6 +148,11 @@ void wr_getline( WRValue* stackTop, const int argn, WRContext* c )
 
 		if ( in == EOF || in == '\n' || in == '\r' || pos >= 256 )
 		{ 
+			if ( pos >= 256 && in != EOF && in != '\n' && in != '\r' )
+			{
+				ungetc( in, stdin ); // first character of the next piece of this line
+			}
+
 			stackTop->va = c->getSVA( pos, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c797e22..b8fa789 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20638,6 +20638,11 @@ void wr_getline( WRValue* stackTop, const int argn, WRContext* c )
 
 		if ( in == EOF || in == '\n' || in == '\r' || pos >= 256 )
 		{ 
+			if ( pos >= 256 && in != EOF && in != '\n' && in != '\r' )
+			{
+				ungetc( in, stdin ); // first character of the next piece of this line
+			}
+
 			stackTop->va = c->getSVA( pos, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
-- 
2.43.0


From 6af5828a64da5499e19ea58bdebaba89b7a9d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:01 +0000
Subject: [PATCH 86/98] fix: new on an imported struct took its members from
 the wrong place and left a value on the stack

---
 discrete_src/vm/vm.cpp | 19 ++++++++-----------
 src/wrench.cpp         | 19 ++++++++-----------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index fb77c2a..0147281 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -932,19 +932,16 @@ debugReturn:
 									// the actual table location and
 									// use it
 
-									if ( args ) // fix up the return value
-									{
-										stackTop -= (args - 1);
-										*(stackTop - 1) = *register0;
-									}
-									else
-									{
-										++stackTop;
-									}
-									
 									pc += 3;
 
-									wr_newObjectTable( context, stackTop++, 0, table );
+									// the frame it ran in is still intact
+									// just past the return value, make the
+									// object there and leave it in place of
+									// the arguments
+									register0 = stackTop + 1;
+									wr_newObjectTable( context, register0, 0, table );
+									stackTop -= args;
+									*(stackTop++) = *register0;
 									goto newObjOut;
 								}
 								
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b8fa789..8daab58 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11223,19 +11223,16 @@ debugReturn:
 									// the actual table location and
 									// use it
 
-									if ( args ) // fix up the return value
-									{
-										stackTop -= (args - 1);
-										*(stackTop - 1) = *register0;
-									}
-									else
-									{
-										++stackTop;
-									}
-									
 									pc += 3;
 
-									wr_newObjectTable( context, stackTop++, 0, table );
+									// the frame it ran in is still intact
+									// just past the return value, make the
+									// object there and leave it in place of
+									// the arguments
+									register0 = stackTop + 1;
+									wr_newObjectTable( context, register0, 0, table );
+									stackTop -= args;
+									*(stackTop++) = *register0;
 									goto newObjOut;
 								}
 								
-- 
2.43.0


From 5867fc6df3a54235589099c68f4d523f89a07b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:25 +0000
Subject: [PATCH 87/98] fix: a case label with a zero byte in its string never
 matched

---
 discrete_src/cc/cc.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 87bd8c6..aa664d3 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2605,7 +2605,7 @@ uint32_t WRCompilationContext::getSingleValueHash( const char* end )
 		return 0;
 	}
 	
-	uint32_t hash = ((uint8_t)value.type == WR_COMPILER_LITERAL_STRING) ? wr_hashStr(token) : value.getHash();
+	uint32_t hash = ((uint8_t)value.type == WR_COMPILER_LITERAL_STRING) ? wr_hash(token.c_str(), token.size()) : value.getHash();
 
 	if ( !getToken(ex, end) )
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8daab58..3566005 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5656,7 +5656,7 @@ uint32_t WRCompilationContext::getSingleValueHash( const char* end )
 		return 0;
 	}
 	
-	uint32_t hash = ((uint8_t)value.type == WR_COMPILER_LITERAL_STRING) ? wr_hashStr(token) : value.getHash();
+	uint32_t hash = ((uint8_t)value.type == WR_COMPILER_LITERAL_STRING) ? wr_hash(token.c_str(), token.size()) : value.getHash();
 
 	if ( !getToken(ex, end) )
 	{
-- 
2.43.0


From 4a9ecc97b417d1b59f42baed5df37f0717ef933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:42 +0000
Subject: [PATCH 88/98] fix: negating a constant of -128 or -32768 left it
 unchanged

---
 discrete_src/cc/optimizer.cpp | 5 +++--
 src/wrench.cpp                | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index d7725f8..c02d604 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -267,12 +267,13 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 		if ( opcode == O_Negate )
 		{
-			if ( bytecode.opcodes[o] == O_LiteralInt8 )
+			if ( bytecode.opcodes[o] == O_LiteralInt8 && bytecode.all[ a ] != 0x80 ) // negated it would not fit
 			{
 				bytecode.all[ a ] = -bytecode.all[ a ];
 				return;
 			}
-			else if ( bytecode.opcodes[o] == O_LiteralInt16 && (a > 1) )
+			else if ( bytecode.opcodes[o] == O_LiteralInt16 && (a > 1)
+					  && (bytecode.all[ a - 1 ] != 0 || bytecode.all[ a ] != 0x80) )
 			{
 				int16_t be = ((int16_t)bytecode.all[ a - 1 ])
 							 | ((int16_t)bytecode.all[ a ] << 8);
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3566005..1d6b389 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -7758,12 +7758,13 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 		if ( opcode == O_Negate )
 		{
-			if ( bytecode.opcodes[o] == O_LiteralInt8 )
+			if ( bytecode.opcodes[o] == O_LiteralInt8 && bytecode.all[ a ] != 0x80 ) // negated it would not fit
 			{
 				bytecode.all[ a ] = -bytecode.all[ a ];
 				return;
 			}
-			else if ( bytecode.opcodes[o] == O_LiteralInt16 && (a > 1) )
+			else if ( bytecode.opcodes[o] == O_LiteralInt16 && (a > 1)
+					  && (bytecode.all[ a - 1 ] != 0 || bytecode.all[ a ] != 0x80) )
 			{
 				int16_t be = ((int16_t)bytecode.all[ a - 1 ])
 							 | ((int16_t)bytecode.all[ a ] << 8);
-- 
2.43.0


From 88798178612760fd8790538751804d8014bc2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:38 +0000
Subject: [PATCH 89/98] fix: a switch whose only content is a goto label broke
 the compilation

---
 discrete_src/cc/cc.cpp | 7 ++++---
 src/wrench.cpp         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index aa664d3..c75a473 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2772,10 +2772,11 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 		}
 	}
 
-	if ( startingBytecodeMarker == m_units[m_unitTop].bytecode.all.size() )
+	if ( startingBytecodeMarker == m_units[m_unitTop].bytecode.all.size()
+		 && m_units[m_unitTop].bytecode.jumpOffsetTargets.count() == (unsigned int)selectionLogicPoint + 1 )
 	{
-		// no code was added so this is one big null operation, go
-		// ahead and null it
+		// no code or goto label was added so this is one big null
+		// operation, go ahead and null it
 		m_units[m_unitTop].bytecode.all.shave(3);
 		m_units[m_unitTop].bytecode.opcodes.clear();
 			
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 1d6b389..cfa7436 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5823,10 +5823,11 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 		}
 	}
 
-	if ( startingBytecodeMarker == m_units[m_unitTop].bytecode.all.size() )
+	if ( startingBytecodeMarker == m_units[m_unitTop].bytecode.all.size()
+		 && m_units[m_unitTop].bytecode.jumpOffsetTargets.count() == (unsigned int)selectionLogicPoint + 1 )
 	{
-		// no code was added so this is one big null operation, go
-		// ahead and null it
+		// no code or goto label was added so this is one big null
+		// operation, go ahead and null it
 		m_units[m_unitTop].bytecode.all.shave(3);
 		m_units[m_unitTop].bytecode.opcodes.clear();
 			
-- 
2.43.0


From 7fd446542586e92031dafbb3ecd89051bf71399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:12 +0000
Subject: [PATCH 90/98] fix: tcp::send sent the number of the socket in place
 of the data

---
 discrete_src/lib/std_tcp.cpp | 2 +-
 src/wrench.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 7f47f40..387133e 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -416,7 +416,7 @@ void wr_sendTCP( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* args = stackTop - argn;
 
 	unsigned int len;
-	char* data = args[0].asMallocString( &len );
+	char* data = args[1].asMallocString( &len );
 	if ( data )
 	{
 		stackTop->i = wr_sendTCPEx( args[0].asInt(), data, len );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index cfa7436..5816ddf 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21273,7 +21273,7 @@ void wr_sendTCP( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* args = stackTop - argn;
 
 	unsigned int len;
-	char* data = args[0].asMallocString( &len );
+	char* data = args[1].asMallocString( &len );
 	if ( data )
 	{
 		stackTop->i = wr_sendTCPEx( args[0].asInt(), data, len );
-- 
2.43.0


From 0298d0c1b81a3574721e1ef3c1bf6744c1485605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:30 +0000
Subject: [PATCH 91/98] fix: tcp::receive ignored a call without a length, and
 a failed read left an array of size -1

---
 discrete_src/lib/std_tcp.cpp | 8 ++++++--
 src/wrench.cpp               | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 387133e..fe905d6 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -445,7 +445,7 @@ int wr_receiveTCPEx( const int socket, char* data, const int toRead, const int t
 //------------------------------------------------------------------------------
 void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 {
-	if ( argn < 2 )
+	if ( argn < 1 )
 	{
 		return;
 	}
@@ -455,6 +455,10 @@ void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 	if ( argn > 1 )
 	{
 		toRead = args[1].asInt();
+		if ( toRead < 1 )
+		{
+			return;
+		}
 	}
 
 	stackTop->va = c->getSVA( toRead, SV_CHAR, false );
@@ -462,7 +466,7 @@ void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 
 	int ret = wr_receiveTCPEx( args[0].asInt(), (char*)stackTop->va->m_Cdata, toRead );
 
-	if ( !ret )
+	if ( ret < 1 )
 	{
 		stackTop->init();
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 5816ddf..b2887fb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21302,7 +21302,7 @@ int wr_receiveTCPEx( const int socket, char* data, const int toRead, const int t
 //------------------------------------------------------------------------------
 void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 {
-	if ( argn < 2 )
+	if ( argn < 1 )
 	{
 		return;
 	}
@@ -21312,6 +21312,10 @@ void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 	if ( argn > 1 )
 	{
 		toRead = args[1].asInt();
+		if ( toRead < 1 )
+		{
+			return;
+		}
 	}
 
 	stackTop->va = c->getSVA( toRead, SV_CHAR, false );
@@ -21319,7 +21323,7 @@ void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 
 	int ret = wr_receiveTCPEx( args[0].asInt(), (char*)stackTop->va->m_Cdata, toRead );
 
-	if ( !ret )
+	if ( ret < 1 )
 	{
 		stackTop->init();
 	}
-- 
2.43.0


From e859cae877b213bc67f89f5710083b817c3f7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:51 +0000
Subject: [PATCH 92/98] fix: tcp::connect to an address that cannot be resolved
 connected to this machine

---
 discrete_src/lib/std_tcp.cpp | 5 ++++-
 src/wrench.cpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index fe905d6..2fcbb77 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -329,7 +329,10 @@ int wr_connectTCPEx( const char* address, const int port )
 	memset( &location, 0, sizeof(location) );
 
 	char ret[21];
-	ipFromAddress( address, &location, ret );
+	if ( !ipFromAddress(address, &location, ret) )
+	{
+		return -1; // falling through would connect to this machine
+	}
 	
 	location.sin_family = AF_INET;
 	location.sin_port = htons( port );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b2887fb..2727f0c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21186,7 +21186,10 @@ int wr_connectTCPEx( const char* address, const int port )
 	memset( &location, 0, sizeof(location) );
 
 	char ret[21];
-	ipFromAddress( address, &location, ret );
+	if ( !ipFromAddress(address, &location, ret) )
+	{
+		return -1; // falling through would connect to this machine
+	}
 	
 	location.sin_family = AF_INET;
 	location.sin_port = htons( port );
-- 
2.43.0


From e21ea0912e5336157b18600f06dff00251811e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:13 +0000
Subject: [PATCH 93/98] fix: tcp::send to a closed connection ended the host
 with SIGPIPE

---
 discrete_src/lib/std_tcp.cpp | 4 ++++
 src/wrench.cpp               | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 2fcbb77..b020683 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -403,7 +403,11 @@ void wr_closeTCP( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 int wr_sendTCPEx( const int socket, const char* data, const int toSend )
 {
+#ifdef WRENCH_LINUX_TCP
+	return send( socket, data, toSend, MSG_NOSIGNAL ); // -1, not SIGPIPE, when the other end is gone
+#else
 	return send( socket, data, toSend, 0 );
+#endif
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2727f0c..bd355be 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21260,7 +21260,11 @@ void wr_closeTCP( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 int wr_sendTCPEx( const int socket, const char* data, const int toSend )
 {
+#ifdef WRENCH_LINUX_TCP
+	return send( socket, data, toSend, MSG_NOSIGNAL ); // -1, not SIGPIPE, when the other end is gone
+#else
 	return send( socket, data, toSend, 0 );
+#endif
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From d45534a85119ee1f83fc958c5192b2d798be1aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:38 +0000
Subject: [PATCH 94/98] fix: tcp::connect with an empty address leaked it

---
 discrete_src/lib/std_tcp.cpp | 5 ++---
 src/wrench.cpp               | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index b020683..0521349 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -364,12 +364,11 @@ void wr_connectTCP( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* args = stackTop - argn;
 
 	char* address = args[0].asMallocString();
-	if ( !address || !address[0] )
+	if ( address && address[0] )
 	{
-		return;
+		stackTop->i = wr_connectTCPEx( address, args[1].asInt() );
 	}
 
-	stackTop->i = wr_connectTCPEx( address, args[1].asInt() );
 	g_free( address );
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index bd355be..5191400 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21221,12 +21221,11 @@ void wr_connectTCP( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* args = stackTop - argn;
 
 	char* address = args[0].asMallocString();
-	if ( !address || !address[0] )
+	if ( address && address[0] )
 	{
-		return;
+		stackTop->i = wr_connectTCPEx( address, args[1].asInt() );
 	}
 
-	stackTop->i = wr_connectTCPEx( address, args[1].asInt() );
 	g_free( address );
 }
 
-- 
2.43.0


From dae14e1d07c6ed2dd5676e46a62d6b58028290cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:45 +0000
Subject: [PATCH 95/98] fix: a goto without its label leaked the links made for
 new

---
 discrete_src/cc/link.cpp | 13 +++++++++++++
 src/wrench.cpp           | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/discrete_src/cc/link.cpp b/discrete_src/cc/link.cpp
index 8bba852..4a0c867 100644
--- a/discrete_src/cc/link.cpp
+++ b/discrete_src/cc/link.cpp
@@ -71,6 +71,17 @@ void WRCompilationContext::createLocalHashMap( WRUnitContext& unit, unsigned cha
 	}
 }
 
+//------------------------------------------------------------------------------
+static void freeNamespaceLookups( NamespacePush* lookups )
+{
+	while( lookups )
+	{
+		NamespacePush* next = lookups->next;
+		g_free( lookups );
+		lookups = next;
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t compilerOptionFlags )
 {
@@ -275,6 +286,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 						if ( diff < -32768 || diff > 32767 )
 						{
 							m_err = WR_ERR_bad_goto_location;
+							freeNamespaceLookups( namespaceLookups );
 							return;
 						}
 						*m_units[u].bytecode.all.p_str( m_units[u].bytecode.gotoSource[g].offset ) = (unsigned char)O_RelativeJump;
@@ -288,6 +300,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 			if ( j >= m_units[u].bytecode.jumpOffsetTargets.count() )
 			{
 				m_err = WR_ERR_goto_target_not_found;
+				freeNamespaceLookups( namespaceLookups );
 				return;
 			}
 		}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 5191400..6b4ffb7 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -6527,6 +6527,17 @@ void WRCompilationContext::createLocalHashMap( WRUnitContext& unit, unsigned cha
 	}
 }
 
+//------------------------------------------------------------------------------
+static void freeNamespaceLookups( NamespacePush* lookups )
+{
+	while( lookups )
+	{
+		NamespacePush* next = lookups->next;
+		g_free( lookups );
+		lookups = next;
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t compilerOptionFlags )
 {
@@ -6731,6 +6742,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 						if ( diff < -32768 || diff > 32767 )
 						{
 							m_err = WR_ERR_bad_goto_location;
+							freeNamespaceLookups( namespaceLookups );
 							return;
 						}
 						*m_units[u].bytecode.all.p_str( m_units[u].bytecode.gotoSource[g].offset ) = (unsigned char)O_RelativeJump;
@@ -6744,6 +6756,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 			if ( j >= m_units[u].bytecode.jumpOffsetTargets.count() )
 			{
 				m_err = WR_ERR_goto_target_not_found;
+				freeNamespaceLookups( namespaceLookups );
 				return;
 			}
 		}
-- 
2.43.0


From 1d322d7f496d5b55a3086d77da953b2972a1ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:04 +0000
Subject: [PATCH 96/98] fix: an error inside a function or struct was followed
 by more parsing

---
 discrete_src/cc/cc.cpp | 5 ++++-
 src/wrench.cpp         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index c75a473..bd03822 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1930,7 +1930,10 @@ bool WRCompilationContext::parseUnit( bool isStruct, int parentUnitIndex )
 		return false;
 	}
 		
-	parseStatement( m_unitTop, '}', O_Return );
+	if ( !parseStatement(m_unitTop, '}', O_Return) )
+	{
+		return false;
+	}
 
 	// even if the last opcode was a return there can be a jump to the
 	// end of the function, over that return
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6b4ffb7..c2a8d79 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4981,7 +4981,10 @@ bool WRCompilationContext::parseUnit( bool isStruct, int parentUnitIndex )
 		return false;
 	}
 		
-	parseStatement( m_unitTop, '}', O_Return );
+	if ( !parseStatement(m_unitTop, '}', O_Return) )
+	{
+		return false;
+	}
 
 	// even if the last opcode was a return there can be a jump to the
 	// end of the function, over that return
-- 
2.43.0


From 085a8633710374befcbb1c60f0d4c729a57aeaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:23 +0000
Subject: [PATCH 97/98] fix: sys::isFunction took a name the host tried to call
 for a function

---
 discrete_src/lib/std_sys.cpp | 8 ++++++--
 src/wrench.cpp               | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index d8e998d..3c0ff59 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -39,9 +39,13 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 		{
 			stackTop->i = 1;
 		}
-		else if ( c->registry.exists(hash, false) )
+		else
 		{
-			stackTop->i = 2;
+			WRValue* unit = c->registry.exists( hash, false );
+			if ( unit && unit->wrf ) // likewise for a name the host tried to call
+			{
+				stackTop->i = 2;
+			}
 		}
 	}
 }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c2a8d79..9c6af42 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23239,9 +23239,13 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 		{
 			stackTop->i = 1;
 		}
-		else if ( c->registry.exists(hash, false) )
+		else
 		{
-			stackTop->i = 2;
+			WRValue* unit = c->registry.exists( hash, false );
+			if ( unit && unit->wrf ) // likewise for a name the host tried to call
+			{
+				stackTop->i = 2;
+			}
 		}
 	}
 }
-- 
2.43.0


From a96b40fe54305e5b6d6e3aa2ec8ae2de434b0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:47 +0000
Subject: [PATCH 98/98] fix: break and continue in a function left the loop
 around its definition

---
 discrete_src/cc/cc.cpp | 15 +++++++++++++--
 discrete_src/cc/cc.h   |  2 ++
 src/wrench.cpp         | 17 +++++++++++++++--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index bd03822..d89a606 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -80,6 +80,8 @@ WRError WRCompilationContext::compile( const char* source,
 	m_parsingNew = false;
 	m_unitTop = 0;
 	m_foreachHash = 0;
+	m_continueBase = 0;
+	m_breakBase = 0;
 
 	m_units.setCount(1);
 
@@ -1930,11 +1932,20 @@ bool WRCompilationContext::parseUnit( bool isStruct, int parentUnitIndex )
 		return false;
 	}
 		
+	// loops and switches around the unit are not its own to leave
+	unsigned int previousContinueBase = m_continueBase;
+	unsigned int previousBreakBase = m_breakBase;
+	m_continueBase = m_continueTargets.count();
+	m_breakBase = m_breakTargets.count();
+
 	if ( !parseStatement(m_unitTop, '}', O_Return) )
 	{
 		return false;
 	}
 
+	m_continueBase = previousContinueBase;
+	m_breakBase = previousBreakBase;
+
 	// even if the last opcode was a return there can be a jump to the
 	// end of the function, over that return
 	pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
@@ -3197,7 +3208,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 		}
 		else if ( !m_quoted && token == "break" )
 		{
-			if ( !m_breakTargets.count() )
+			if ( m_breakTargets.count() <= m_breakBase )
 			{
 				m_err = WR_ERR_break_keyword_not_in_looping_structure;
 				return false;
@@ -3213,7 +3224,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 		}
 		else if ( !m_quoted && token == "continue" )
 		{
-			if ( !m_continueTargets.count() )
+			if ( m_continueTargets.count() <= m_continueBase )
 			{
 				m_err = WR_ERR_continue_keyword_not_in_looping_structure;
 				return false;
diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index 2fa1a9f..b160185 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -515,6 +515,8 @@ private:
 
 	WRarray<int> m_continueTargets;
 	WRarray<int> m_breakTargets;
+	unsigned int m_continueBase; // targets below these belong to an enclosing unit
+	unsigned int m_breakBase;
 
 	int m_foreachHash;
 };
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 9c6af42..eb1a710 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -2291,6 +2291,8 @@ private:
 
 	WRarray<int> m_continueTargets;
 	WRarray<int> m_breakTargets;
+	unsigned int m_continueBase; // targets below these belong to an enclosing unit
+	unsigned int m_breakBase;
 
 	int m_foreachHash;
 };
@@ -3131,6 +3133,8 @@ WRError WRCompilationContext::compile( const char* source,
 	m_parsingNew = false;
 	m_unitTop = 0;
 	m_foreachHash = 0;
+	m_continueBase = 0;
+	m_breakBase = 0;
 
 	m_units.setCount(1);
 
@@ -4981,11 +4985,20 @@ bool WRCompilationContext::parseUnit( bool isStruct, int parentUnitIndex )
 		return false;
 	}
 		
+	// loops and switches around the unit are not its own to leave
+	unsigned int previousContinueBase = m_continueBase;
+	unsigned int previousBreakBase = m_breakBase;
+	m_continueBase = m_continueTargets.count();
+	m_breakBase = m_breakTargets.count();
+
 	if ( !parseStatement(m_unitTop, '}', O_Return) )
 	{
 		return false;
 	}
 
+	m_continueBase = previousContinueBase;
+	m_breakBase = previousBreakBase;
+
 	// even if the last opcode was a return there can be a jump to the
 	// end of the function, over that return
 	pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
@@ -6248,7 +6261,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 		}
 		else if ( !m_quoted && token == "break" )
 		{
-			if ( !m_breakTargets.count() )
+			if ( m_breakTargets.count() <= m_breakBase )
 			{
 				m_err = WR_ERR_break_keyword_not_in_looping_structure;
 				return false;
@@ -6264,7 +6277,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 		}
 		else if ( !m_quoted && token == "continue" )
 		{
-			if ( !m_continueTargets.count() )
+			if ( m_continueTargets.count() <= m_continueBase )
 			{
 				m_err = WR_ERR_continue_keyword_not_in_looping_structure;
 				return false;
-- 
2.43.0


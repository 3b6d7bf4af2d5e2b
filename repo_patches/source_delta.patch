From a8a71f69c18ce4050f80136755625116c16b1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 01/46] fix: TaC code generator: flags of a comparison no
 longer taken for the loaded boolean value

'if (b = (x == 255))' and '(a || !b) == false' tested flags which described the
comparison (or one of several paths), not the value now held in the accumulator.
---
 src--/vm2tac.cmm | 3 +++
 src/vm2tac.c     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src--/vm2tac.cmm b/src--/vm2tac.cmm
index c2eb94e..9348c69 100644
--- a/src--/vm2tac.cmm
+++ b/src--/vm2tac.cmm
@@ -210,6 +210,7 @@ void loadReg(int r, int p) {
     printf("\tPOP\t%s\n",regs[r]);              //   POP Reg
   } else if (sta==FLAG) {                       // 値はフラグにある論理値
     loadFlg(r, p);                              //   論理値を r に移す
+    flgPtr = -1;                                //   フラグは r を反映しない
   } else {                                      // その他なら
     BUG((sta==ACC||sta==RVAR) && stkAux[p]==r,  //   必要ないのに呼ばれていれる
 	"loadReg");
@@ -838,6 +839,7 @@ void boolOrAnd(int lab1, int lab2, int lab3, int x, int nx) {
     printf("\tLD\t%s,#%d\n", acc, nx);          //       LD  Acc,#nx
   }
   vmLab(lab3);                                  //  .L3:
+  flgPtr = -1;                                  //  フラグは Acc を反映しない
 }
 
 // フラグにある論理値を Acc に論理値をロードする
@@ -858,6 +860,7 @@ void flagOrAnd(int lab1, int lab2, int lab3, char[] jcc, int x, int nx) {
   }
   vmLab(lab3);                                  //  .L3:
   topSta = ACC;                                 //  状態は (ACC, Acc) になる
+  flgPtr = -1;                                  //  フラグは Acc を反映しない
 }
 
 // BOOLOR .L1,.L2,.L3 マクロ命令(論理式の最後で論理値を Acc にロードするマクロ)
diff --git a/src/vm2tac.c b/src/vm2tac.c
index 80db45a..d820e76 100644
--- a/src/vm2tac.c
+++ b/src/vm2tac.c
@@ -209,6 +209,7 @@ static void loadReg(int r, int p) {
     printf("\tPOP\t%s\n",regs[r]);              //   POP Reg
   } else if (sta==FLAG) {                       // 値はフラグにある論理値
     loadFlg(r, p);                              //   論理値を r に移す
+    flgPtr = -1;                                //   フラグは r を反映しない
   } else {                                      // その他なら
     BUG((sta==ACC||sta==RVAR) && stkAux[p]==r,  //   必要ないのに呼ばれていれる
 	"loadReg");
@@ -837,6 +838,7 @@ static void boolOrAnd(int lab1, int lab2, int lab3, int x, int nx) {
     printf("\tLD\t%s,#%d\n", acc, nx);          //       LD  Acc,#nx
   }
   vmLab(lab3);                                  //  .L3:
+  flgPtr = -1;                                  //  フラグは Acc を反映しない
 }
 
 // フラグにある論理値を Acc に論理値をロードする
@@ -857,6 +859,7 @@ static void flagOrAnd(int lab1, int lab2, int lab3, char *jcc, int x, int nx) {
   }
   vmLab(lab3);                                  //  .L3:
   topSta = ACC;                                 //  状態は (ACC, Acc) になる
+  flgPtr = -1;                                  //  フラグは Acc を反映しない
 }
 
 // BOOLOR .L1,.L2,.L3 マクロ命令(論理式の最後で論理値を Acc にロードするマクロ)
-- 
2.43.0


From 711072df6a720ee92e794c5a51061f8be862ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 02/46] fix: TaC code generator: no spill of accumulators
 inside the conditional part of && and ||

'(i * j) - ord(b && f(k))' pushed the pending product on the stack only on the
path which evaluates f(k), so the stack was unbalanced when b was false.
---
 src--/vm.hmm     | 6 ++++++
 src--/vm2ic.cmm  | 4 ++++
 src--/vm2tac.cmm | 8 ++++++++
 src--/vm2vm.cmm  | 4 ++++
 src--/vmCode.cmm | 7 +++++++
 src/vm.h         | 6 ++++++
 src/vm2h8300hn.c | 4 ++++
 src/vm2ic.c      | 4 ++++
 src/vm2tac.c     | 8 ++++++++
 src/vm2vm.c      | 4 ++++
 src/vmCode.c     | 7 +++++++
 11 files changed, 62 insertions(+)

diff --git a/src--/vm.hmm b/src--/vm.hmm
index ae15800..e8765a4 100644
--- a/src--/vm.hmm
+++ b/src--/vm.hmm
@@ -116,6 +116,12 @@ public void vmPop();                 // スタックから値を一つ取り出
  */
 public void vmBoolOR(int L1, int L2, int L3);
 
+/*
+ * && , || 論理式の値を求める直前に呼ばれる(コードは生成しなくても良い)
+ * depth は論理式の計算に必要なスタックの深さ(関数呼出しを含む場合は 100)
+ */
+public void vmBoolEx(int depth);
+
 /*
  * && 論理式の最後で論理値を求めるマクロ命令
  * (以下のようなニーモニックを生成する)
diff --git a/src--/vm2ic.cmm b/src--/vm2ic.cmm
index a0f4357..12d1515 100644
--- a/src--/vm2ic.cmm
+++ b/src--/vm2ic.cmm
@@ -320,6 +320,10 @@ public void vmPop() {
  *  マクロ命令
  *
  */
+// 論理式の値を求める直前(コードは生成しない)
+public void vmBoolEx(int depth) {
+}
+
 // BOOLOR .L1,.L2,.L3
 public void vmBoolOR(int lab1, int lab2, int lab3) {
   printf("vmBoolOR(%d, %d, %d)\n", lab1, lab2, lab3);
diff --git a/src--/vm2tac.cmm b/src--/vm2tac.cmm
index 9348c69..53e6d2b 100644
--- a/src--/vm2tac.cmm
+++ b/src--/vm2tac.cmm
@@ -863,6 +863,14 @@ void flagOrAnd(int lab1, int lab2, int lab3, char[] jcc, int x, int nx) {
   flgPtr = -1;                                  //  フラグは Acc を反映しない
 }
 
+// 論理式の値を求める直前に呼ばれる。
+// 論理式には条件ジャンプで飛び越される部分があるので、その部分で Acc が不足し
+// 計算途中の Acc が退避されることがないように、予め実スタックに移しておく。
+public void vmBoolEx(int depth) {
+  if (accCnt+depth > AccSIZ)                    // Acc が不足する可能性があるなら
+    outStkAll();                                //   全ての Acc を退避する
+}
+
 // BOOLOR .L1,.L2,.L3 マクロ命令(論理式の最後で論理値を Acc にロードするマクロ)
 public void vmBoolOR(int lab1, int lab2, int lab3) {
   if (topSta==FLAG)                             // フラグに結果があるなら
diff --git a/src--/vm2vm.cmm b/src--/vm2vm.cmm
index 17a21a6..eea9b62 100644
--- a/src--/vm2vm.cmm
+++ b/src--/vm2vm.cmm
@@ -349,6 +349,10 @@ public void vmPop() {
  *  マクロ命令
  *
  */
+// 論理式の値を求める直前(コードは生成しない)
+public void vmBoolEx(int depth) {
+}
+
 // BOOLOR .L1,.L2,.L3
 public void vmBoolOR(int lab1, int lab2, int lab3) {
   printf("; BOOLOR .L%d,.L%d,.L%d\n", lab1, lab2, lab3);
diff --git a/src--/vmCode.cmm b/src--/vmCode.cmm
index 4e3a95b..bc816d3 100644
--- a/src--/vmCode.cmm
+++ b/src--/vmCode.cmm
@@ -270,6 +270,12 @@ int evalDepth(int node) {
     if (l==r) return l+1;                         //   同じなら l + 1
     if (l>r) return l;                            //   l が大きければ l
     return r;                                     //   r が大きければ r を返す
+  }
+  if (typ==SyASS) {                               // 代入は右辺を先に計算する
+    int l = evalDepth(lval);                      //   左右の辺のスタック
+    int r = evalDepth(rval);                      //     使用量を計算し
+    if (r>l) return r;                            //   max(l + 1, r) を返す
+    return l + 1;                                 //
   }
                                                   // 左右の辺を入換えできない
   int l = evalDepth(lval);                        //   左右の辺のスタック
@@ -440,6 +446,7 @@ void genLOpExpr(int node, Expr c) {
   Label lab1 = newLabel(0);                       // 途中で結果が出たとき
   Label lab2 = newLabel(1);                       // 途中で結果が出たとき
 
+  vmBoolEx(evalDepth(node));                      // 論理式の計算を開始する
   int rNode = genLogExpr(node, c, 1, lab2, lab1); // コード生成
   genExpr(rNode, c);                              // 最後の項の論理値を求める
 
diff --git a/src/vm.h b/src/vm.h
index 4089837..c21da11 100644
--- a/src/vm.h
+++ b/src/vm.h
@@ -115,6 +115,12 @@ void vmPop(void);                  // スタックから値を一つ取り出し
  */
 void vmBoolOR(int L1, int L2, int L3);
 
+/*
+ * && , || 論理式の値を求める直前に呼ばれる(コードは生成しなくても良い)
+ * depth は論理式の計算に必要なスタックの深さ(関数呼出しを含む場合は 100)
+ */
+void vmBoolEx(int depth);
+
 /*
  * && 論理式の最後で論理値を求めるマクロ命令
  * (以下のようなニーモニックを生成する)
diff --git a/src/vm2h8300hn.c b/src/vm2h8300hn.c
index e71b560..f0f4018 100644
--- a/src/vm2h8300hn.c
+++ b/src/vm2h8300hn.c
@@ -1078,6 +1078,10 @@ static void flagOrAnd(int lab1, int lab2, int lab3, char *bcc, int x, int nx) {
   flgPtr = stkPtr;                              // フラグが変化する
 }
 
+// 論理式の値を求める直前(コードは生成しない)
+void vmBoolEx(int depth) {
+}
+
 // BOOLOR .L1,.L2,.L3 マクロ命令
 void vmBoolOR(int lab1, int lab2, int lab3) {
   if (stkPtr<0) error("バグ...vmBoolOR");
diff --git a/src/vm2ic.c b/src/vm2ic.c
index 2b99663..3d5945a 100644
--- a/src/vm2ic.c
+++ b/src/vm2ic.c
@@ -318,6 +318,10 @@ void vmPop() {
  *  マクロ命令
  *
  */
+// 論理式の値を求める直前(コードは生成しない)
+void vmBoolEx(int depth) {
+}
+
 // BOOLOR .L1,.L2,.L3
 void vmBoolOR(int lab1, int lab2, int lab3) {
   printf("vmBoolOR(%d, %d, %d)\n", lab1, lab2, lab3);
diff --git a/src/vm2tac.c b/src/vm2tac.c
index d820e76..bc45d00 100644
--- a/src/vm2tac.c
+++ b/src/vm2tac.c
@@ -862,6 +862,14 @@ static void flagOrAnd(int lab1, int lab2, int lab3, char *jcc, int x, int nx) {
   flgPtr = -1;                                  //  フラグは Acc を反映しない
 }
 
+// 論理式の値を求める直前に呼ばれる。
+// 論理式には条件ジャンプで飛び越される部分があるので、その部分で Acc が不足し
+// 計算途中の Acc が退避されることがないように、予め実スタックに移しておく。
+void vmBoolEx(int depth) {
+  if (accCnt+depth > AccSIZ)                    // Acc が不足する可能性があるなら
+    outStkAll();                                //   全ての Acc を退避する
+}
+
 // BOOLOR .L1,.L2,.L3 マクロ命令(論理式の最後で論理値を Acc にロードするマクロ)
 void vmBoolOR(int lab1, int lab2, int lab3) {
   if (topSta==FLAG)                             // フラグに結果があるなら
diff --git a/src/vm2vm.c b/src/vm2vm.c
index 7cc4907..150e9c9 100644
--- a/src/vm2vm.c
+++ b/src/vm2vm.c
@@ -348,6 +348,10 @@ void vmPop() {
  *  マクロ命令
  *
  */
+// 論理式の値を求める直前(コードは生成しない)
+void vmBoolEx(int depth) {
+}
+
 // BOOLOR .L1,.L2,.L3
 void vmBoolOR(int lab1, int lab2, int lab3) {
   printf("; BOOLOR .L%d,.L%d,.L%d\n", lab1, lab2, lab3);
diff --git a/src/vmCode.c b/src/vmCode.c
index f05d7ea..147ffa9 100644
--- a/src/vmCode.c
+++ b/src/vmCode.c
@@ -269,6 +269,12 @@ static int evalDepth(int node) {
     if (l==r) return l+1;                         //   同じなら l + 1
     if (l>r) return l;                            //   l が大きければ l
     return r;                                     //   r が大きければ r を返す
+  }
+  if (typ==SyASS) {                               // 代入は右辺を先に計算する
+    int l = evalDepth(lval);                      //   左右の辺のスタック
+    int r = evalDepth(rval);                      //     使用量を計算し
+    if (r>l) return r;                            //   max(l + 1, r) を返す
+    return l + 1;                                 //
   }
                                                   // 左右の辺を入換えできない
   int l = evalDepth(lval);                        //   左右の辺のスタック
@@ -440,6 +446,7 @@ static void genLOpExpr(int node, struct Expr* c) {
   struct Label *lab1 = newLabel(0);               // 途中で結果が出たとき
   struct Label *lab2 = newLabel(1);               // 途中で結果が出たとき
 
+  vmBoolEx(evalDepth(node));                      // 論理式の計算を開始する
   int rNode = genLogExpr(node, c, 1, lab2, lab1); // コード生成
   genExpr(rNode, c);                              // 最後の項の論理値を求める
 
-- 
2.43.0


From 533225dbd61ad93b63c900e24776b9365a7367b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 03/46] fix: TaC code generator: 'int a = addrof(b);' emitted
 another name than b

---
 src--/vm2tac.cmm | 2 +-
 src/vm2tac.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src--/vm2tac.cmm b/src--/vm2tac.cmm
index 53e6d2b..abad57a 100644
--- a/src--/vm2tac.cmm
+++ b/src--/vm2tac.cmm
@@ -893,7 +893,7 @@ public void vmBoolAND(int lab1, int lab2, int lab3) {
 // DW name      (ポインタデータの生成)
 public void vmDwName(int idx) {
   printf("\tDW\t%c%s\n",
-	 getPref(topAux), ntGetName(topAux));   //    DW  _name
+	 getPref(idx), ntGetName(idx));         //    DW  _name
 }
 
 // DW .Ln       (ポインタデータの生成)
diff --git a/src/vm2tac.c b/src/vm2tac.c
index bc45d00..c2f158f 100644
--- a/src/vm2tac.c
+++ b/src/vm2tac.c
@@ -892,7 +892,7 @@ void vmBoolAND(int lab1, int lab2, int lab3) {
 // DW name      (ポインタデータの生成)
 void vmDwName(int idx) {
   printf("\tDW\t%c%s\n",
-	 getPref(topAux), ntGetName(topAux));   //    DW  _name
+	 getPref(idx), ntGetName(idx));         //    DW  _name
 }
 
 // DW .Ln       (ポインタデータの生成)
-- 
2.43.0


From c3e6521072d7b23fda493d9bc06d1ac7666dc063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 04/46] fix: optimizer computed x / c1 / c2 as x / (c1 * c2)
 when the product overflows

'x / 256 / 256' was rejected as a division by 0, 'x / 200 / 200' was wrong.
---
 src--/optree.cmm | 10 +++++++++-
 src/optree.c     | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src--/optree.cmm b/src--/optree.cmm
index b03a342..937df4a 100644
--- a/src--/optree.cmm
+++ b/src--/optree.cmm
@@ -444,6 +444,12 @@ void pullTree(int node) {
     moveLeft(syGetRVal(node));                    //   右辺を処理する
 }
 
+// x / c1 / c2 を x / (c1 * c2) に変形できる(積がオーバーフローしない)
+boolean canMulDiv(int c1, int c2) {
+  int max = ~(1<<(NWORD-1)) & WMSK;               // int の最大値
+  return c1>0 && c2>0 && c1<=max/c2;
+}
+
 // 木を「左によせる」
 void moveLeft(int node) {
   if (needLeft(node))                             // 左辺が存在する演算子なら
@@ -486,7 +492,9 @@ void moveCnst(int node) {
     node = l;                                     //     / |             / |
   }                                               //    x  a         (l)x  5(r)
    
-  if (lOp==op) { /* 定数の場合SySUBはないはず */  // 同じ演算子連続なら定数発見
+  if (lOp==op && (op!=SyDIV ||                    // '/' は積が計算できる場合のみ
+      canMulDiv(getSInt(syGetRVal(l)), getSInt(r)))) {
+    /* 定数の場合SySUBはないはず */               // 同じ演算子連続なら定数発見
     sySetLVal(node, syGetLVal(l));                //  (node)+   => (node)+
     sySetLVal(l, syGetRVal(l));                   //       / |          / |
     sySetRVal(l, r);                              //   (l)+  5(r)      y  +(l)
diff --git a/src/optree.c b/src/optree.c
index 4c24c7e..822d07f 100644
--- a/src/optree.c
+++ b/src/optree.c
@@ -439,6 +439,12 @@ static void pullTree(int node) {
     moveLeft(syGetRVal(node));                    //   右辺を処理する
 }
 
+// x / c1 / c2 を x / (c1 * c2) に変形できる(積がオーバーフローしない)
+static boolean canMulDiv(int c1, int c2) {
+  int max = ~(1<<(NWORD-1)) & WMSK;               // int の最大値
+  return c1>0 && c2>0 && c1<=max/c2;
+}
+
 // 木を「左によせる」
 static void moveLeft(int node) {
   if (needLeft(node))                             // 左辺が存在する演算子なら
@@ -481,7 +487,9 @@ static void moveCnst(int node) {
     node = l;                                     //     / |             / |
   }                                               //    x  a         (l)x  5(r)
    
-  if (lOp==op) { /* 定数の場合SySUBはないはず */  // 同じ演算子連続なら定数発見
+  if (lOp==op && (op!=SyDIV ||                    // '/' は積が計算できる場合のみ
+      canMulDiv(getSInt(syGetRVal(l)), getSInt(r)))) {
+    /* 定数の場合SySUBはないはず */               // 同じ演算子連続なら定数発見
     sySetLVal(node, syGetLVal(l));                //  (node)+   => (node)+
     sySetLVal(l, syGetRVal(l));                   //       / |          / |
     sySetRVal(l, r);                              //   (l)+  5(r)      y  +(l)
-- 
2.43.0


From 18ed07669dca0b7b8214ee91ecac56f298ce851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 05/46] fix: optimizer: break and continue in 'do { ... } while
 (false)' left the wrong loop

---
 src--/optree.cmm | 14 +++++++++++++-
 src/optree.c     | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src--/optree.cmm b/src--/optree.cmm
index 937df4a..04fd162 100644
--- a/src--/optree.cmm
+++ b/src--/optree.cmm
@@ -575,6 +575,18 @@ void optWhl(int node) {
   }
 }
 
+// 文(node)は，自身を囲むループを対象とする break, continue を含む
+boolean hasJump(int node) {
+  if (node==SyNULL) return false;                 // 何も無い
+  int ty = syGetType(node);
+  if (ty==SyBRK || ty==SyCNT) return true;        // 見付かった
+  if (ty==SyIF) return hasJump(syGetRVal(node));  // if 文は本文を調べる
+  if (ty==SyELS || ty==SySEMI || ty==SyBLK)       // if-else 文，ブロックは
+    return hasJump(syGetLVal(node)) ||            //   両方を調べる
+      hasJump(syGetRVal(node));                   // 内側のループは調べない
+  return false;
+}
+
 // do-while 文を最適化する
 void optDo(int node) {
   int cnd = syGetRVal(node);                      // 条件式を取り出す
@@ -589,7 +601,7 @@ void optDo(int node) {
       sySetRVal(cnd, SyNULL);                     //     再初期化は無し
       sySetRVal(node, cnd);                       //     while の本文を登録
       sySetLVal(node, SyNULL);                    //     条件式は削除
-    } else                                        //   false の場合
+    } else if (!hasJump(sta))                     //   false の場合
       copyNode(node, sta);                        //     do-whileを
   }                                               //       本文で上書き
 }
diff --git a/src/optree.c b/src/optree.c
index 822d07f..eee00bf 100644
--- a/src/optree.c
+++ b/src/optree.c
@@ -570,6 +570,18 @@ static void optWhl(int node) {
   }
 }
 
+// 文(node)は，自身を囲むループを対象とする break, continue を含む
+static boolean hasJump(int node) {
+  if (node==SyNULL) return false;                 // 何も無い
+  int ty = syGetType(node);
+  if (ty==SyBRK || ty==SyCNT) return true;        // 見付かった
+  if (ty==SyIF) return hasJump(syGetRVal(node));  // if 文は本文を調べる
+  if (ty==SyELS || ty==SySEMI || ty==SyBLK)       // if-else 文，ブロックは
+    return hasJump(syGetLVal(node)) ||            //   両方を調べる
+      hasJump(syGetRVal(node));                   // 内側のループは調べない
+  return false;
+}
+
 // do-while 文を最適化する
 static void optDo(int node) {
   int cnd = syGetRVal(node);                      // 条件式を取り出す
@@ -584,7 +596,7 @@ static void optDo(int node) {
       sySetRVal(cnd, SyNULL);                     //     再初期化は無し
       sySetRVal(node, cnd);                       //     while の本文を登録
       sySetLVal(node, SyNULL);                    //     条件式は削除
-    } else                                        //   false の場合
+    } else if (!hasJump(sta))                     //   false の場合
       copyNode(node, sta);                        //     do-whileを
   }                                               //       本文で上書き
 }
-- 
2.43.0


From eb754858a1b35629ead2d033712a7a9abb3382d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 06/46] fix: c-c-- and rtc-c-- died on the constant expression
 0x80000000 / -1

---
 src--/optree.cmm | 4 ++++
 src/optree.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src--/optree.cmm b/src--/optree.cmm
index 04fd162..7633c4a 100644
--- a/src--/optree.cmm
+++ b/src--/optree.cmm
@@ -264,6 +264,8 @@ void optMul(int node, int l, int r) {
 void optDiv(int node, int l, int r) {
   if (isCnstN(r, 0))                              // 右辺が定数 0 なら
     error("0 での割算");                          //   エラー
+  else if (isCnstCnst(l, r) && isCnstN(r, WMSK))  // 定数を -1 で割るなら
+    setSInt(node, -getSInt(l));                   //   商のオーバーフローに注意
   else if (isCnstCnst(l, r))                      // 両辺とも定数なら   
     setSInt(node, getSInt(l) / getSInt(r));       //   商 を格納する
   else if (isCnstN(r, 1))                         // 右辺が定数 1 なら
@@ -274,6 +276,8 @@ void optDiv(int node, int l, int r) {
 void optMod(int node, int l, int r) {
   if (isCnstN(r, 0))                              // 右辺が定数 0 なら
     error("0 での剰余算");                        //   エラー
+  else if (isCnstCnst(l, r) && isCnstN(r, WMSK))  // 定数を -1 で割るなら
+    setSInt(node ,0);                             //   余りは 0
   else if (isCnstCnst(l, r))                      // 両辺とも定数なら
     setSInt(node, getSInt(l) % getSInt(r));       //   剰余 を格納する
   else if (isCnstN(r, 1))                         // 右辺が定数 1 なら
diff --git a/src/optree.c b/src/optree.c
index eee00bf..e8f6f17 100644
--- a/src/optree.c
+++ b/src/optree.c
@@ -259,6 +259,8 @@ static void optMul(int node, int l, int r) {
 static void optDiv(int node, int l, int r) {
   if (isCnstN(r, 0))                              // 右辺が定数 0 なら
     error("0 での割算");                          //   エラー
+  else if (isCnstCnst(l, r) && isCnstN(r, WMSK))  // 定数を -1 で割るなら
+    setSInt(node, -getSInt(l));                   //   商のオーバーフローに注意
   else if (isCnstCnst(l, r))                      // 両辺とも定数なら   
     setSInt(node, getSInt(l) / getSInt(r));       //   商 を格納する
   else if (isCnstN(r, 1))                         // 右辺が定数 1 なら
@@ -269,6 +271,8 @@ static void optDiv(int node, int l, int r) {
 static void optMod(int node, int l, int r) {
   if (isCnstN(r, 0))                              // 右辺が定数 0 なら
     error("0 での剰余算");                        //   エラー
+  else if (isCnstCnst(l, r) && isCnstN(r, WMSK))  // 定数を -1 で割るなら
+    setSInt(node ,0);                             //   余りは 0
   else if (isCnstCnst(l, r))                      // 両辺とも定数なら
     setSInt(node, getSInt(l) % getSInt(r));       //   剰余 を格納する
   else if (isCnstN(r, 1))                         // 右辺が定数 1 なら
-- 
2.43.0


From f24bad50dce15c0ef3428f307f708d4d3f15e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 07/46] fix: TaC code generator: flags of a comparison no
 longer taken for its value when compared with 0 or false

---
 src--/vm2tac.cmm | 4 ++--
 src/vm2tac.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src--/vm2tac.cmm b/src--/vm2tac.cmm
index abad57a..5b338f2 100644
--- a/src--/vm2tac.cmm
+++ b/src--/vm2tac.cmm
@@ -753,10 +753,10 @@ int swapJcc(int jcc ) {
 // 比較のコード生成
 void cmp(int jcc) {
   if (isCnst0(stkPtr) &&                        // Src が定数 0 で
-      flgPtr==stkPtr-1) {                       //   Dst の評価がフラグにあれば
+      flgPtr==stkPtr-1 && secSta!=FLAG) {       //   Dst の評価がフラグにあれば
                                                 //    何もしない
   } else if (isCnst0(stkPtr-1) &&               // Dst が定数の 0 で
-      flgPtr==stkPtr) {                         //   Src の評価がフラグにあれば
+      flgPtr==stkPtr && topSta!=FLAG) {         //   Src の評価がフラグにあれば
     jcc = swapJcc(jcc);                         //    フラグ値判断用の Jcc 変更
   } else {                                      // Src, Dst の両方が定数 0 以外
     if ((topSta==ACC || topSta==RVAR) &&        //   Src がどれかレジスタにあり
diff --git a/src/vm2tac.c b/src/vm2tac.c
index c2f158f..bcbf2fd 100644
--- a/src/vm2tac.c
+++ b/src/vm2tac.c
@@ -752,10 +752,10 @@ static int swapJcc(int jcc ) {
 // 比較のコード生成
 static void cmp(int jcc) {
   if (isCnst0(stkPtr) &&                        // Src が定数 0 で
-      flgPtr==stkPtr-1) {                       //   Dst の評価がフラグにあれば
+      flgPtr==stkPtr-1 && secSta!=FLAG) {       //   Dst の評価がフラグにあれば
                                                 //    何もしない
   } else if (isCnst0(stkPtr-1) &&               // Dst が定数の 0 で
-      flgPtr==stkPtr) {                         //   Src の評価がフラグにあれば
+      flgPtr==stkPtr && topSta!=FLAG) {         //   Src の評価がフラグにあれば
     jcc = swapJcc(jcc);                         //    フラグ値判断用の Jcc 変更
   } else {                                      // Src, Dst の両方が定数 0 以外
     if ((topSta==ACC || topSta==RVAR) &&        //   Src がどれかレジスタにあり
-- 
2.43.0


From 66638318f151f52b4ade2311da74acedb0757e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 08/46] fix: TaC code generator: a discarded value that was
 spilled to the stack stayed there

---
 src--/vm2tac.cmm | 4 ++++
 src/vm2tac.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src--/vm2tac.cmm b/src--/vm2tac.cmm
index 5b338f2..0d64035 100644
--- a/src--/vm2tac.cmm
+++ b/src--/vm2tac.cmm
@@ -819,6 +819,10 @@ public void vmNe() {
 // スタックから値を一つ取り出し捨てる
 public void vmPop() {
   if (isAcc(stkPtr)) relAcc(topAux);            // スタックトップが Acc なら解放
+  else if (topSta==STK) {                       // 実スタックに追い出されていれば
+    clearFlg();                                 //   フラグ値の変化にそなえ
+    printf("\tADD\tSP,#2\n");                   //   実スタックからも捨てる
+  }
   //  else BUG(topSta!=RVAR, "vmPop");              // スタックトップがレジスタ以外
   popStk(1);
 }
diff --git a/src/vm2tac.c b/src/vm2tac.c
index bcbf2fd..aaa8218 100644
--- a/src/vm2tac.c
+++ b/src/vm2tac.c
@@ -818,6 +818,10 @@ void vmNe() {
 // スタックから値を一つ取り出し捨てる
 void vmPop() {
   if (isAcc(stkPtr)) relAcc(topAux);            // スタックトップが Acc なら解放
+  else if (topSta==STK) {                       // 実スタックに追い出されていれば
+    clearFlg();                                 //   フラグ値の変化にそなえ
+    printf("\tADD\tSP,#2\n");                   //   実スタックからも捨てる
+  }
   //  else BUG(topSta!=RVAR, "vmPop");              // スタックトップがレジスタ以外
   popStk(1);
 }
-- 
2.43.0


From b0ec1483c86351452c0f19a5fe56261dca334106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 09/46] fix: c-c-- wrote 'do' and a following expression
 statement as one word

---
 src--/cCode.cmm | 2 ++
 src/cCode.c     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src--/cCode.cmm b/src--/cCode.cmm
index 182d7a8..98b40f3 100644
--- a/src--/cCode.cmm
+++ b/src--/cCode.cmm
@@ -305,6 +305,8 @@ void printDo(int node){
   int lVal = syGetLVal(node);                       // 本体
   int rVal = syGetRVal(node);                       // 条件式
   printf("do");                                     // "do"
+  if (lVal==SyNULL || syGetType(lVal)!=SyBLK)       // 本体がブロック以外なら
+    printf(" ");                                    //   "do"と文を空白で区切る
   traceTree(lVal);                                  // "本体"
   printf("while(");                                 // "while ("
   printExp(rVal);                                   // "条件式"
diff --git a/src/cCode.c b/src/cCode.c
index 67b468d..5b32ce3 100644
--- a/src/cCode.c
+++ b/src/cCode.c
@@ -305,6 +305,8 @@ static void printDo(int node){
   int lVal = syGetLVal(node);                       // 本体
   int rVal = syGetRVal(node);                       // 条件式
   printf("do");                                     // "do"
+  if (lVal==SyNULL || syGetType(lVal)!=SyBLK)       // 本体がブロック以外なら
+    printf(" ");                                    //   "do"と文を空白で区切る
   traceTree(lVal);                                  // "本体"
   printf("while(");                                 // "while ("
   printExp(rVal);                                   // "条件式"
-- 
2.43.0


From 0869f332dcaeee7562c5d7ca7cd722ce9887392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 10/46] fix: c-c-- -O0 wrote a minus before a negative constant
 as '--'

---
 src--/cCode.cmm | 4 ++++
 src/cCode.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src--/cCode.cmm b/src--/cCode.cmm
index 98b40f3..22e7099 100644
--- a/src--/cCode.cmm
+++ b/src--/cCode.cmm
@@ -253,12 +253,16 @@ void printExp(int node){
   } else if (SyIS1OPR(typ)) {                       // 後置以外の単項演算なら
     printf("(");                                    //   "(演算子 式)"
     printOP(typ);                                   //
+    if (typ==SyNEG && syGetType(lVal)==SyCNST       //   負の定数が続くと
+        && syGetLVal(lVal)<0) printf(" ");          //     "--"になるのを防ぐ
     printExp(lVal);                                 //
     printf(")");                                    //
   } else {                                          // それ以外なら２項演算
     printf("(");                                    //   "(左辺 演算子 右辺)"
     printExp(lVal);                                 //
     printOP(typ);                                   //
+    if (typ==SySUB && syGetType(rVal)==SyCNST       //   負の定数が続くと
+        && syGetLVal(rVal)<0) printf(" ");          //     "--"になるのを防ぐ
     printExp(rVal);                                 //
     printf(")");                                    //
   }
diff --git a/src/cCode.c b/src/cCode.c
index 5b32ce3..00d5e59 100644
--- a/src/cCode.c
+++ b/src/cCode.c
@@ -253,12 +253,16 @@ static void printExp(int node){
   } else if (SyIS1OPR(typ)) {                       // 後置以外の単項演算なら
     printf("(");                                    //   "(演算子 式)"
     printOP(typ);                                   //
+    if (typ==SyNEG && syGetType(lVal)==SyCNST       //   負の定数が続くと
+        && syGetLVal(lVal)<0) printf(" ");          //     "--"になるのを防ぐ
     printExp(lVal);                                 //
     printf(")");                                    //
   } else {                                          // それ以外なら２項演算
     printf("(");                                    //   "(左辺 演算子 右辺)"
     printExp(lVal);                                 //
     printOP(typ);                                   //
+    if (typ==SySUB && syGetType(rVal)==SyCNST       //   負の定数が続くと
+        && syGetLVal(rVal)<0) printf(" ");          //     "--"になるのを防ぐ
     printExp(rVal);                                 //
     printf(")");                                    //
   }
-- 
2.43.0


From 4204573ae69675e1de165341b6da5264629a574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 11/46] fix: c-c-- printed sizeof of an array type as the size
 of its element type

---
 src--/cCode.cmm | 3 ++-
 src/cCode.c     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src--/cCode.cmm b/src--/cCode.cmm
index 22e7099..7ee2635 100644
--- a/src--/cCode.cmm
+++ b/src--/cCode.cmm
@@ -248,7 +248,8 @@ void printExp(int node){
     printf(")");                                    //
   } else if (typ==SySIZE) {                         // sizeof() なら
     printf("sizeof(");                              //   "sizeof(
-    printType(false, lVal, rVal, true);             //   "インスタンス型"
+    printType(false, lVal, rVal, rVal==0);          //   "インスタンス型"か
+                                                    //   配列なら"参照型"
     printf(")");                                    //   ")"
   } else if (SyIS1OPR(typ)) {                       // 後置以外の単項演算なら
     printf("(");                                    //   "(演算子 式)"
diff --git a/src/cCode.c b/src/cCode.c
index 00d5e59..c9ed4b6 100644
--- a/src/cCode.c
+++ b/src/cCode.c
@@ -248,7 +248,8 @@ static void printExp(int node){
     printf(")");                                    //
   } else if (typ==SySIZE) {                         // sizeof() なら
     printf("sizeof(");                              //   "sizeof(
-    printType(false, lVal, rVal, true);             //   "インスタンス型"
+    printType(false, lVal, rVal, rVal==0);          //   "インスタンス型"か
+                                                    //   配列なら"参照型"
     printf(")");                                    //   ")"
   } else if (SyIS1OPR(typ)) {                       // 後置以外の単項演算なら
     printf("(");                                    //   "(演算子 式)"
-- 
2.43.0


From 2e4fd3cb0eef6bd57dc511e4d58136af9c088b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 12/46] fix: c-c-- printed two empty statements as the body of
 a control structure

---
 src--/cCode.cmm | 15 +++++++++++----
 src/cCode.c     | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src--/cCode.cmm b/src--/cCode.cmm
index 7ee2635..10f1e74 100644
--- a/src--/cCode.cmm
+++ b/src--/cCode.cmm
@@ -269,6 +269,13 @@ void printExp(int node){
   }
 }
 
+// 制御構造の本体を印刷する(最適化で残った空文は文ひとつにする)
+void printBody(int node){
+  if (node!=SyNULL && syGetType(node)==SySEMI &&
+      syGetLVal(node)==SyNULL && syGetRVal(node)==SyNULL) node=SyNULL;
+  traceTree(node);
+}
+
 // if文を印刷する
 void printIf(int node){
   printf("{if(");                                   // {if(
@@ -284,9 +291,9 @@ void printEls(int node){
   printf("if(");                                    // if(
   printExp(syGetLVal(nodeIf));                      // 条件式
   printf(")");                                      // )
-  traceTree(syGetRVal(nodeIf));                     // 文
+  printBody(syGetRVal(nodeIf));                     // 文
   printf("else ");                                  // else
-  traceTree(syGetRVal(node));                       // 文
+  printBody(syGetRVal(node));                       // 文
 }
 
 // while文（for文も含む）を印刷する
@@ -302,7 +309,7 @@ void printWhl(int node){
   if (rIni!=SyNULL) printExp(rIni);                 //   "再初期化式"
   printf(")\n");                                    // ")"
   // 本体
-  traceTree(syGetLVal(rVal));                       // "本体"
+  printBody(syGetLVal(rVal));                       // "本体"
 }
 
 // do-while文を印刷する
@@ -312,7 +319,7 @@ void printDo(int node){
   printf("do");                                     // "do"
   if (lVal==SyNULL || syGetType(lVal)!=SyBLK)       // 本体がブロック以外なら
     printf(" ");                                    //   "do"と文を空白で区切る
-  traceTree(lVal);                                  // "本体"
+  printBody(lVal);                                  // "本体"
   printf("while(");                                 // "while ("
   printExp(rVal);                                   // "条件式"
   printf(");\n");                                   // ");"
diff --git a/src/cCode.c b/src/cCode.c
index c9ed4b6..ba254fa 100644
--- a/src/cCode.c
+++ b/src/cCode.c
@@ -269,6 +269,13 @@ static void printExp(int node){
   }
 }
 
+// 制御構造の本体を印刷する(最適化で残った空文は文ひとつにする)
+static void printBody(int node){
+  if (node!=SyNULL && syGetType(node)==SySEMI &&
+      syGetLVal(node)==SyNULL && syGetRVal(node)==SyNULL) node=SyNULL;
+  traceTree(node);
+}
+
 // if文を印刷する
 static void printIf(int node){
   printf("{if(");                                   // {if(
@@ -284,9 +291,9 @@ static void printEls(int node){
   printf("if(");                                    // if(
   printExp(syGetLVal(nodeIf));                      // 条件式
   printf(")");                                      // )
-  traceTree(syGetRVal(nodeIf));                     // 文
+  printBody(syGetRVal(nodeIf));                     // 文
   printf("else ");                                  // else
-  traceTree(syGetRVal(node));                       // 文
+  printBody(syGetRVal(node));                       // 文
 }
 
 // while文（for文も含む）を印刷する
@@ -302,7 +309,7 @@ static void printWhl(int node){
   if (rIni!=SyNULL) printExp(rIni);                 //   "再初期化式"
   printf(")\n");                                    // ")"
   // 本体
-  traceTree(syGetLVal(rVal));                       // "本体"
+  printBody(syGetLVal(rVal));                       // "本体"
 }
 
 // do-while文を印刷する
@@ -312,7 +319,7 @@ static void printDo(int node){
   printf("do");                                     // "do"
   if (lVal==SyNULL || syGetType(lVal)!=SyBLK)       // 本体がブロック以外なら
     printf(" ");                                    //   "do"と文を空白で区切る
-  traceTree(lVal);                                  // "本体"
+  printBody(lVal);                                  // "本体"
   printf("while(");                                 // "while ("
   printExp(rVal);                                   // "条件式"
   printf(");\n");                                   // ");"
-- 
2.43.0


From b00d8f15e80a90e1c68b193b7591303e6e7c62a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 13/46] fix: comparisons of arrays of different element types
 and of void functions were accepted

---
 src--/parser.cmm | 6 ++++--
 src/parser.c     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src--/parser.cmm b/src--/parser.cmm
index 13792fc..16963ba 100644
--- a/src--/parser.cmm
+++ b/src--/parser.cmm
@@ -633,9 +633,11 @@ void getEquExpr(Watch w) {
     else break;
     Watch w2 = newWatch();
     getCmpExpr(w2);                            // 右辺(w2)を読み込む
-    if (w.type == TyCHAR) w.type = TyINT;      // 比較演算では char は
-    if (w2.type == TyCHAR) w2.type = TyINT;    //   int と同じとみなす
+    autoCast(w, TyINT, 0);                     // 比較演算では char は
+    autoCast(w2, TyINT, 0);                    //   int と同じとみなす
     chkCmpat(w2, w.type, w.dim);               // 代入可能な型なら比較可能
+    if (w.type==TyVOID && w.dim==0)            // void型関数は比較できない
+      error("void型は使用できない");
     int n = syNewNode(op, w.tree, w2.tree);    // 新しいノードを作る
     setWatch(w, TyBOOL, 0, false, n);          // 式(w)は boolean 型になる
     freeWatch(w2);                             // w2解放
diff --git a/src/parser.c b/src/parser.c
index fcb5ca1..7c2b5c6 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -633,9 +633,11 @@ static void getEquExpr(struct watch* w) {
     else break;
     struct watch* w2 = newWatch();
     getCmpExpr(w2);                            // 右辺(w2)を読み込む
-    if (w->type == TyCHAR) w->type = TyINT;    // 比較演算では char は
-    if (w2->type == TyCHAR) w2->type = TyINT;  //   int と同じとみなす
+    autoCast(w, TyINT, 0);                     // 比較演算では char は
+    autoCast(w2, TyINT, 0);                    //   int と同じとみなす
     chkCmpat(w2, w->type, w->dim);             // 代入可能な型なら比較可能
+    if (w->type==TyVOID && w->dim==0)          // void型関数は比較できない
+      error("void型は使用できない");
     int n = syNewNode(op, w->tree, w2->tree);  // 新しいノードを作る
     setWatch(w, TyBOOL, 0, false, n);          // 式(w)は boolean 型になる
     freeWatch(w2);                             // w2解放
-- 
2.43.0


From b2d53f1f52f9ae27a77787c5ca607bfa4c0c4f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 14/46] fix: names declared after a typedef were taken for
 fields of the opaque type

---
 src--/parser.cmm | 1 +
 src/parser.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src--/parser.cmm b/src--/parser.cmm
index 16963ba..ea0eb06 100644
--- a/src--/parser.cmm
+++ b/src--/parser.cmm
@@ -1228,6 +1228,7 @@ void getProg() {
   } else if (isTok(LxTYPEDEF)) {             // 'typedef'なら
     curScope = ScSTRC;                       // スコープは構造体(-1)にする
     curType = TyREF;                         // 何か参照型
+    curCnt  = 0;                             // フィールドはない
     if (pubFlag) error("\'public typedef\'は使えない");
     getName(false);                          // 新たな型名を表に登録
     chkTok(';', "typedef宣言が';'で終わっていない");
diff --git a/src/parser.c b/src/parser.c
index 7c2b5c6..e7aaccd 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1228,6 +1228,7 @@ static void getProg(void) {
   } else if (isTok(LxTYPEDEF)) {             // 'typedef'なら
     curScope = ScSTRC;                       // スコープは構造体(-1)にする
     curType = TyREF;                         // 何か参照型
+    curCnt  = 0;                             // フィールドはない
     if (pubFlag) error("\'public typedef\'は使えない");
     getName(false);                          // 新たな型名を表に登録
     chkTok(';', "typedef宣言が';'で終わっていない");
-- 
2.43.0


From 83a50bcd84129c263a02e53d730cd414c5595d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 15/46] fix: c-c-- died on sizeof in the initializer list of an
 array or structure

---
 src--/cCode.cmm | 4 +++-
 src/cCode.c     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src--/cCode.cmm b/src--/cCode.cmm
index 10f1e74..c2ecff5 100644
--- a/src--/cCode.cmm
+++ b/src--/cCode.cmm
@@ -531,6 +531,8 @@ void printList2(int vType, int dim, int node, int cnt) {
       printf("&");                                  // "&"
 #endif
       printStrLab(lVal);                              //   "文字列ラベル"
+    } else if (typ==SySIZE) {                         // sizeof() なら
+      printExp(node);                                 //   "sizeof(型)"
     } else error("バグ...printList2");
   }
 #ifdef _RTC
@@ -552,7 +554,7 @@ void printList1(int vType, int dim, int node) {
   } else if (typ==SyARRY) {                         // 内部の SyARRY なら
     int ln = printArray0(vType, dim, lVal, 1);      //   printArray0() を実行
     sySetRVal(node, ln);                            // SyARRAY にラベル番号記録
-  } else if (typ!=SyCNST && typ!=SySTR) {
+  } else if (typ!=SyCNST && typ!=SySTR && typ!=SySIZE) {
     error("バグ...printList1");
   }
 }
diff --git a/src/cCode.c b/src/cCode.c
index ba254fa..7ce1997 100644
--- a/src/cCode.c
+++ b/src/cCode.c
@@ -531,6 +531,8 @@ static void printList2(int vType, int dim, int node, int cnt) {
       printf("&");                                  // "&"
 #endif
       printStrLab(lVal);                              //   "文字列ラベル"
+    } else if (typ==SySIZE) {                         // sizeof() なら
+      printExp(node);                                 //   "sizeof(型)"
     } else error("バグ...printList2");
   }
 #ifdef _RTC
@@ -552,7 +554,7 @@ static void printList1(int vType, int dim, int node) {
   } else if (typ==SyARRY) {                         // 内部の SyARRY なら
     int ln = printArray0(vType, dim, lVal, 1);      //   printArray0() を実行
     sySetRVal(node, ln);                            // SyARRAY にラベル番号記録
-  } else if (typ!=SyCNST && typ!=SySTR) {
+  } else if (typ!=SyCNST && typ!=SySTR && typ!=SySIZE) {
     error("バグ...printList1");
   }
 }
-- 
2.43.0


From abb3233ba3ab71629d8f8edccb7620d429178be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 16/46] fix: a parameter list ending in ',' was accepted

---
 src--/parser.cmm | 3 ++-
 src/parser.c     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src--/parser.cmm b/src--/parser.cmm
index ea0eb06..ff2c7d9 100644
--- a/src--/parser.cmm
+++ b/src--/parser.cmm
@@ -966,7 +966,8 @@ void getParams(int idx) {
     if (idx>=1) chkParam(idx+curCnt);          // プロトタイプ宣言があれば比較
     curIdx= ntDefName("", curScope,            // '...'を関数引数として表に登録
 	      TyDOTDOTDOT, 0, curCnt, false);
-  }
+  } else if (lastTok==',' && curCnt>0)       // ',' の次に何もなければ
+    error("引数リストの ',' の次に型がない"); //   エラー
   chkTok(')', "引数リストが ')' で終わっていない");
 }
 
diff --git a/src/parser.c b/src/parser.c
index e7aaccd..d51805e 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -966,7 +966,8 @@ static void getParams(int idx) {
     if (idx>=1) chkParam(idx+curCnt);          // プロトタイプ宣言があれば比較
     curIdx= ntDefName("", curScope,            // '...'を関数引数として表に登録
 	      TyDOTDOTDOT, 0, curCnt, false);
-  }
+  } else if (lastTok==',' && curCnt>0)       // ',' の次に何もなければ
+    error("引数リストの ',' の次に型がない"); //   エラー
   chkTok(')', "引数リストが ')' で終わっていない");
 }
 
-- 
2.43.0


From 44fcc72cb4178485d6a5571df323b0dce3a210c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 17/46] fix: names, strings and file names longer than StrMAX
 overflowed their buffers

---
 src--/lexer.cmm | 7 ++++---
 src--/util.cmm  | 5 ++++-
 src/lexer.c     | 7 ++++---
 src/util.c      | 5 ++++-
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src--/lexer.cmm b/src--/lexer.cmm
index f3fd1af..0014541 100644
--- a/src--/lexer.cmm
+++ b/src--/lexer.cmm
@@ -212,7 +212,7 @@ int getSharp() {
   if (ch!='"') error("#にファイル名がない");       // ファイル名は " で始まる
   getCh();                                         // '"'を読み飛ばす
   int i;
-  for (i=0; i<=StrMAX; i=i+1) {                    // ファイル名を読み込む
+  for (i=0; i<StrMAX; i=i+1) {                     // ファイル名を読み込む
     if (ch=='"' || ch=='\n' || ch==EOF) break;     // 終わったら break
     str[i] = ch;                                   // ファイル名を記憶
     getCh();
@@ -227,7 +227,7 @@ int getSharp() {
 // 名前か予約語を読み込む
 int getWord(){
   int i;
-  for (i=0; !isDelim(ch) && i<=StrMAX; i=i+1) {    // 区切り文字以外なら
+  for (i=0; !isDelim(ch) && i<StrMAX; i=i+1) {     // 区切り文字以外なら
     str[i] = ch;                                   // strに読み込む
     getCh();                                       // 1文字読み飛ばす
   }
@@ -309,7 +309,7 @@ int putOctStr(char c, int p) {
 int getStr(){
   int i = 0;                                       // str 上の格納位置
   int cnt = 1;                                     // 文字列のバイト数
-  while (getCh()!='"' && ch!=EOF && i<=StrMAX) {   // (")以外の間
+  while (getCh()!='"' && ch!=EOF && i<StrMAX) {    // (")以外の間
     if (!isPrint(ch)) {                            // ch が制御文字なら
       break;                                       //   異常終了
     } else if (ch!='\\') {                         // (\)以外なら
@@ -325,6 +325,7 @@ int getStr(){
 	c = getOctStr();                           //     8進を読む
 	i = putOctStr(c, i);                       //     8進にして str に格納
       } else {                                     //   (\?)その他は
+        if (i+2 > StrMAX) error("文字列が長すぎる");
 	str[i] = '\\';                             //        (\)
 	i = i + 1;
 	str[i] = ch;                               //        (?)
diff --git a/src--/util.cmm b/src--/util.cmm
index 5576edd..79d1045 100644
--- a/src--/util.cmm
+++ b/src--/util.cmm
@@ -56,7 +56,10 @@ public void setFname(char[] s) {                   // 入力ファイル名を
     fname[i] = s[i];
     if (fname[i]=='\0') break;
   }
-  if (fname[i]!='\0') error("ファイル名が長すぎる");
+  if (i>StrMAX) {
+    fname[StrMAX] = '\0';
+    error("ファイル名が長すぎる");
+  }
 }
 #ifdef _C
 public char[] getFname(){
diff --git a/src/lexer.c b/src/lexer.c
index d68097d..f0c3686 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -204,7 +204,7 @@ static int getSharp() {
   if (ch!='"') error("#にファイル名がない");       // ファイル名は " で始まる
   getCh();                                         // '"'を読み飛ばす
   int i;
-  for (i=0; i<=StrMAX; i=i+1) {                    // ファイル名を読み込む
+  for (i=0; i<StrMAX; i=i+1) {                     // ファイル名を読み込む
     if (ch=='"' || ch=='\n' || ch==EOF) break;     // 終わったら break
     str[i] = ch;                                   // ファイル名を記憶
     getCh();
@@ -219,7 +219,7 @@ static int getSharp() {
 // 名前か予約語を読み込む
 static int getWord(){
   int i;
-  for (i=0; !isDelim(ch) && i<=StrMAX; i=i+1) {    // 区切り文字以外なら
+  for (i=0; !isDelim(ch) && i<StrMAX; i=i+1) {     // 区切り文字以外なら
     str[i] = ch;                                   // strに読み込む
     getCh();                                       // 1文字読み飛ばす
   }
@@ -301,7 +301,7 @@ static int putOctStr(int v, int p) {
 static int getStr(){
   int i = 0;                                       // str 上の格納位置
   int cnt = 1;                                     // 文字列のバイト数
-  while (getCh()!='"' && ch!=EOF && i<=StrMAX) {   // (")以外の間
+  while (getCh()!='"' && ch!=EOF && i<StrMAX) {    // (")以外の間
     if (iscntrl(ch)) {                             // ch が制御文字なら
       break;                                       //   異常終了
     } else if (ch!='\\') {                         // (\)以外なら
@@ -317,6 +317,7 @@ static int getStr(){
 	v = getOctStr();                           //     8進を読む
 	i = putOctStr(v, i);                       //     8進にして str に格納
       } else {                                     //   (\?)その他は
+        if (i+2 > StrMAX) error("文字列が長すぎる");
 	str[i] = '\\';                             //        (\)
 	i = i + 1;
 	str[i] = ch;                               //        (?)
diff --git a/src/util.c b/src/util.c
index cf97a05..a0740b6 100644
--- a/src/util.c
+++ b/src/util.c
@@ -55,7 +55,10 @@ void setFname(char s[]) {                          // 入力ファイル名を
     fname[i] = s[i];
     if (fname[i]=='\0') break;
   }
-  if (fname[i]!='\0') error("ファイル名が長すぎる");
+  if (i>StrMAX) {
+    fname[StrMAX] = '\0';
+    error("ファイル名が長すぎる");
+  }
 }
 #ifdef _C
 char* getFname(){
-- 
2.43.0


From b2d5e0774e03f12ca4bd19d05b9a255fbfef6b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 18/46] fix: a backslash before an ordinary character in a
 string is that character, as documented

---
 src--/lexer.cmm | 8 +++++++-
 src/lexer.c     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src--/lexer.cmm b/src--/lexer.cmm
index 0014541..60da9b2 100644
--- a/src--/lexer.cmm
+++ b/src--/lexer.cmm
@@ -324,12 +324,18 @@ int getStr(){
       } else if (isOdigit(ch)) {                   //   (\[0-7])なら8進数
 	c = getOctStr();                           //     8進を読む
 	i = putOctStr(c, i);                       //     8進にして str に格納
-      } else {                                     //   (\?)その他は
+      } else if (ch=='n' || ch=='t' || ch=='r' ||  //   (\n)などは
+                 ch=='"' || ch=='\'' || ch=='\\') {
         if (i+2 > StrMAX) error("文字列が長すぎる");
 	str[i] = '\\';                             //        (\)
 	i = i + 1;
 	str[i] = ch;                               //        (?)
 	i = i + 1;
+      } else if (!isPrint(ch)) {
+        error("未定義のエスケープ文字");
+      } else {                                     //   (\?)その他は
+	str[i] = ch;                               //     (?)と同じ
+	i = i + 1;
       }
     }
     cnt = cnt + 1;                                 // 1バイトをカウント
diff --git a/src/lexer.c b/src/lexer.c
index f0c3686..ee341e7 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -316,12 +316,18 @@ static int getStr(){
       } else if (isOdigit(ch)) {                   //   (\[0-7])なら8進数
 	v = getOctStr();                           //     8進を読む
 	i = putOctStr(v, i);                       //     8進にして str に格納
-      } else {                                     //   (\?)その他は
+      } else if (ch=='n' || ch=='t' || ch=='r' ||  //   (\n)などは
+                 ch=='"' || ch=='\'' || ch=='\\') {
         if (i+2 > StrMAX) error("文字列が長すぎる");
 	str[i] = '\\';                             //        (\)
 	i = i + 1;
 	str[i] = ch;                               //        (?)
 	i = i + 1;
+      } else if (ch==EOF || iscntrl(ch)) {
+        error("未定義のエスケープ文字");
+      } else {                                     //   (\?)その他は
+	str[i] = ch;                               //     (?)と同じ
+	i = i + 1;
       }
     }
     cnt = cnt + 1;                                 // 1バイトをカウント
-- 
2.43.0


From 58340ebe0ab0ebc68793139fd509e4e6328f807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 19/46] fix: a line marker after a name, string or number
 replaced its value by the marker's

---
 src--/lexer.cmm  | 14 ++++++++++----
 src--/lexer.hmm  |  2 ++
 src--/parser.cmm |  8 ++++----
 src/lexer.c      | 14 ++++++++++----
 src/lexer.h      |  2 ++
 src/parser.c     |  8 ++++----
 6 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src--/lexer.cmm b/src--/lexer.cmm
index 60da9b2..ca6c7cf 100644
--- a/src--/lexer.cmm
+++ b/src--/lexer.cmm
@@ -86,6 +86,8 @@ int    ln     = 1;                                 // 現在の行
 int    ln2    = 0;                                 // 現在の行
 int    val;                                        // 数値を返す場合、その値
 char[] str=array(StrMAX + 1);                      // 名前を返す場合、その綴
+int    fln;                                        // ディレクティブの行番号
+char[] fname=array(StrMAX + 1);                    // ディレクティブのファイル名
 FILE   fp;                                         // ソースコードファイル
 
 // 一文字を読み込む
@@ -207,20 +209,20 @@ int getSharp() {
   getCh();                                         // '#' を読み飛ばす
   skipSpc();                                       // 改行以外の空白をスキップ
   if (!isDigit(ch)) error("#に行番号がない");      // 行番号があるはず
-  val = getDec();                                  // 行番号の読み込み
+  fln = getDec();                                  // 行番号の読み込み
   skipSpc();                                       // 改行以外の空白をスキップ
   if (ch!='"') error("#にファイル名がない");       // ファイル名は " で始まる
   getCh();                                         // '"'を読み飛ばす
   int i;
   for (i=0; i<StrMAX; i=i+1) {                     // ファイル名を読み込む
     if (ch=='"' || ch=='\n' || ch==EOF) break;     // 終わったら break
-    str[i] = ch;                                   // ファイル名を記憶
+    fname[i] = ch;                                 // ファイル名を記憶
     getCh();
   }
-  str[i] = '\0';                                   // ファイル名を完成する
+  fname[i] = '\0';                                 // ファイル名を完成する
   if (ch!='"') error("#の\"が閉じてないか長すぎる");
   skipToEol();                                     // 行末まで読み飛ばす
-  ln2 = val;                                       // 指示された行を現在行にする
+  ln2 = fln;                                       // 指示された行を現在行にする
   return LxFILE;                                   // ファイル名を読んだ
 }
 
@@ -445,4 +447,8 @@ public int lxGetVal() { return val; }              // 数値等の値を返す
 
 public char[] lxGetStr() { return str; }           // 名前、文字列の綴を返す
 
+public int lxGetFln() { return fln; }              // ディレクティブの行番号
+
+public char[] lxGetFname() { return fname; }       // ディレクティブのファイル名
+
 public void lxSetFp(FILE p) { fp = p; }            // fp をセットする
diff --git a/src--/lexer.hmm b/src--/lexer.hmm
index bc343ea..e0e4da3 100644
--- a/src--/lexer.hmm
+++ b/src--/lexer.hmm
@@ -97,4 +97,6 @@ public int    lxGetTok();      // 字句解析ルーチン
 public int    lxGetLn();       // 行番号を返す
 public int    lxGetVal();      // 数値等を読んだときの値を返す
 public char[] lxGetStr();      // 名前、文字列の綴を返す
+public int    lxGetFln();      // ディレクティブの行番号を返す
+public char[] lxGetFname();    // ディレクティブのファイル名を返す
 public void   lxSetFp(FILE p); // fp をセットする
diff --git a/src--/parser.cmm b/src--/parser.cmm
index ff2c7d9..8326d7e 100644
--- a/src--/parser.cmm
+++ b/src--/parser.cmm
@@ -131,7 +131,7 @@ void getTok() {                              // ディレクティブ以外を
   for (;;) {
     tok = lxGetTok();                        // 次のトークンを入力する
     if (tok!=LxFILE) break;                  // ディレクティブ以外なら完了
-    setFname(lxGetStr());                    // ディレクティブなら
+    setFname(lxGetFname());                  // ディレクティブなら
   }                                          //   ファイル名を記憶してやり直し
 }
 //-----------------------------------------------------------------------------
@@ -144,14 +144,14 @@ int _tok;                                    // 次のトークン
 
 void getTok() {                              // 次のトークンを入力する
   _tok = lxGetTok();                         //   ディレクティブも入力する
-  if (_tok==LxFILE) setFname(lxGetStr());    // ディレクティブならファイル名記憶
+  if (_tok==LxFILE) setFname(lxGetFname());  // ディレクティブならファイル名記憶
 }
 
 #define tok _getTok()                        // tok 使用は、_getTok() に置換え
 int _getTok() {                              // tok 使用時に
   while (_tok==LxFILE) {                     //   ディレクティブを読み飛ばす
     _tok = lxGetTok();                       //     次もディレクティブなら     
-    if (_tok==LxFILE) setFname(lxGetStr());  //       ファイル名記憶記憶して
+    if (_tok==LxFILE) setFname(lxGetFname());//       ファイル名記憶記憶して
   }                                          //         やり直す
   return _tok;
 }
@@ -1272,7 +1272,7 @@ public void psGetSrc() {
   getTok();                                  // 最初の tok を読み込む
   while (_tok!=LxEOF) {                      // EOF になるまで
     if (_tok==LxFILE) {                      //  ディレクティブなら
-      genDirect(lxGetVal(), lxGetStr());     //   # 行番号 "ファイル名" の処理
+      genDirect(lxGetFln(), lxGetFname());   //   # 行番号 "ファイル名" の処理
       getTok();
     } else {                                 //  ディレクティブ以外なら
       getProg();                             //   C-- プログラムを処理
diff --git a/src/lexer.c b/src/lexer.c
index ee341e7..279cb71 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -82,6 +82,8 @@ static int  ln     = 1;                            // 現在の行
 static int  ln2    = 0;                            // 現在の行
 static int  val;                                   // 数値を返す場合、その値
 static char str[StrMAX + 1];                       // 名前を返す場合、その綴
+static int  fln;                                   // ディレクティブの行番号
+static char fname[StrMAX + 1];                     // ディレクティブのファイル名
 static FILE * fp;                                  // ソースコードファイル
 
 // 一文字を読み込む
@@ -199,20 +201,20 @@ static int getSharp() {
   getCh();                                         // '#' を読み飛ばす
   skipSpc();                                       // 改行以外の空白をスキップ
   if (!isdigit(ch)) error("#に行番号がない");      // 行番号があるはず
-  val = getDec();                                  // 行番号の読み込み
+  fln = getDec();                                  // 行番号の読み込み
   skipSpc();                                       // 改行以外の空白をスキップ
   if (ch!='"') error("#にファイル名がない");       // ファイル名は " で始まる
   getCh();                                         // '"'を読み飛ばす
   int i;
   for (i=0; i<StrMAX; i=i+1) {                     // ファイル名を読み込む
     if (ch=='"' || ch=='\n' || ch==EOF) break;     // 終わったら break
-    str[i] = ch;                                   // ファイル名を記憶
+    fname[i] = ch;                                 // ファイル名を記憶
     getCh();
   }
-  str[i] = '\0';                                   // ファイル名を完成する
+  fname[i] = '\0';                                 // ファイル名を完成する
   if (ch!='"') error("#の\"が閉じてないか長すぎる");
   skipToEol();                                     // 行末まで読み飛ばす
-  ln2 = val;                                       // 指示された行を現在行にする
+  ln2 = fln;                                       // 指示された行を現在行にする
   return LxFILE;                                   // ファイル名を読んだ
 }
 
@@ -437,4 +439,8 @@ int lxGetVal() { return val; }                     // 数値等の値を返す
 
 char *lxGetStr() { return str; }                   // 名前、文字列の綴を返す
 
+int lxGetFln() { return fln; }                     // ディレクティブの行番号
+
+char *lxGetFname() { return fname; }               // ディレクティブのファイル名
+
 void lxSetFp(FILE *p) { fp = p; }                  // fp をセットする
diff --git a/src/lexer.h b/src/lexer.h
index 10a11b8..af6912f 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -93,4 +93,6 @@ int   lxGetTok(void);          // 字句解析ルーチン
 int   lxGetLn(void);           // 行番号を返す
 int   lxGetVal(void);          // 数値等を読んだときの値を返す
 char *lxGetStr(void);          // 名前、文字列の綴を返す
+int   lxGetFln(void);          // ディレクティブの行番号を返す
+char *lxGetFname(void);        // ディレクティブのファイル名を返す
 void  lxSetFp(FILE *p);        // fp をセットする
diff --git a/src/parser.c b/src/parser.c
index d51805e..852c929 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -132,7 +132,7 @@ static void getTok(void) {                   // ディレクティブ以外を
   for (;;) {
     tok = lxGetTok();                        // 次のトークンを入力する
     if (tok!=LxFILE) break;                  // ディレクティブ以外なら完了
-    setFname(lxGetStr());                    // ディレクティブなら
+    setFname(lxGetFname());                  // ディレクティブなら
   }                                          //   ファイル名を記憶してやり直し
 }
 //-----------------------------------------------------------------------------
@@ -145,14 +145,14 @@ static int _tok;                             // 次のトークン
 
 static void getTok(void) {                   // 次のトークンを入力する
   _tok = lxGetTok();                         //   ディレクティブも入力する
-  if (_tok==LxFILE) setFname(lxGetStr());    // ディレクティブならファイル名記憶
+  if (_tok==LxFILE) setFname(lxGetFname());  // ディレクティブならファイル名記憶
 }
 
 #define tok _getTok()                        // tok 使用は、_getTok() に置換え
 static int _getTok(void) {                   // tok 使用時に
   while (_tok==LxFILE) {                     //   ディレクティブを読み飛ばす
     _tok = lxGetTok();                       //     次もディレクティブなら     
-    if (_tok==LxFILE) setFname(lxGetStr());  //       ファイル名記憶記憶して
+    if (_tok==LxFILE) setFname(lxGetFname());//       ファイル名記憶記憶して
   }                                          //         やり直す
   return _tok;
 }
@@ -1272,7 +1272,7 @@ void psGetSrc(void) {
   getTok();                                  // 最初の tok を読み込む
   while (_tok!=EOF) {                        // EOF になるまで
     if (_tok==LxFILE) {                      //  ディレクティブなら
-      genDirect(lxGetVal(), lxGetStr());     //   # 行番号 "ファイル名" の処理
+      genDirect(lxGetFln(), lxGetFname());   //   # 行番号 "ファイル名" の処理
       getTok();
     } else {                                 //  ディレクティブ以外なら
       getProg();                             //   C-- プログラムを処理
-- 
2.43.0


From 042b81733d28f255c47237087ff717f759e1b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 20/46] fix: a function that does not end in return was
 reported at the declaration after it

---
 src--/parser.cmm | 18 +++++++++++++-----
 src/parser.c     | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src--/parser.cmm b/src--/parser.cmm
index 8326d7e..87a25ad 100644
--- a/src--/parser.cmm
+++ b/src--/parser.cmm
@@ -921,8 +921,8 @@ int getStat() {
   return sta;
 }
 
-// ブロックを読み込む
-int getBlock() {
+// ブロックを閉じる '}' の前までを読み込む
+int getBody() {
   int lval   = SyNULL;
   int tmpIdx = ntGetSize();                    // ブロック終了時にローカル変数
   int tmpCnt = curCnt;                         //   を捨てるために憶えておくもの
@@ -936,7 +936,6 @@ int getBlock() {
     }
     lval = syCatNode(lval, rval);              // リストを作る
   }
-  chkTok('}', "ブロックが '}' で終了していない");
   ntSetVoid(tmpIdx);                           // 表からローカル変数を捨てる
   curCnt = tmpCnt;                             // スタックの深さを戻す
   if (lval!=SyNULL && syGetType(lval)==SySEMI) // 意味のあるブロックなら
@@ -944,6 +943,13 @@ int getBlock() {
   return lval;
 }
 
+// ブロックを読み込む
+int getBlock() {
+  int sta = getBody();
+  chkTok('}', "ブロックが '}' で終了していない");
+  return sta;
+}
+
 // プロトタイプ宣言と引数を比較する
 void chkParam(int idx) {
   if (ntGetType(idx)!=curType || ntGetDim(idx)!=curDim)
@@ -1002,12 +1008,14 @@ void getFunc() {
     ntSetScope(funcIdx, ScFUNC);             // 今回の宣言を定義に変更
     maxCnt = 0;                              // 最大の変数番号
     curCnt = 0;                              // 次出現変数の番号
-    getBlock();                              // 関数本体を読み込む
-    if ((ntGetType(funcIdx)!=TyVOID ||       // void型の関数,
+    getBody();                               // 関数本体を読み込む
+    if (tok=='}'                   &&        // 次が終わりの '}' で
+	(ntGetType(funcIdx)!=TyVOID ||       // void型の関数,
 	 ntGetDim(funcIdx)!=0)      &&       //
 	ntGetType(funcIdx)!=TyINTR  &&       // interupt型以外の関数が
 	lastStat!=LxRETURN)                  // return文で終わっていない
       error("関数がreturnで終わっていない");
+    chkTok('}', "ブロックが '}' で終了していない");
     //syPrintTree();                         // ### デバッグ用 ###
     if (optFlag) optTree(syGetRoot());       // 木を最適化する
     //syPrintTree();                         // ### デバッグ用 ###
diff --git a/src/parser.c b/src/parser.c
index 852c929..8043e98 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -921,8 +921,8 @@ static int getStat(void) {
   return sta;
 }
 
-// ブロックを読み込む
-static int getBlock(void) {
+// ブロックを閉じる '}' の前までを読み込む
+static int getBody(void) {
   int lval   = SyNULL;
   int tmpIdx = ntGetSize();                    // ブロック終了時にローカル変数
   int tmpCnt = curCnt;                         //   を捨てるために憶えておくもの
@@ -936,7 +936,6 @@ static int getBlock(void) {
     }
     lval = syCatNode(lval, rval);              // リストを作る
   }
-  chkTok('}', "ブロックが '}' で終了していない");
   ntSetVoid(tmpIdx);                           // 表からローカル変数を捨てる
   curCnt = tmpCnt;                             // スタックの深さを戻す
   if (lval!=SyNULL && syGetType(lval)==SySEMI) // 意味のあるブロックなら
@@ -944,6 +943,13 @@ static int getBlock(void) {
   return lval;
 }
 
+// ブロックを読み込む
+static int getBlock(void) {
+  int sta = getBody();
+  chkTok('}', "ブロックが '}' で終了していない");
+  return sta;
+}
+
 // プロトタイプ宣言と引数を比較する
 static void chkParam(int idx) {
   if (ntGetType(idx)!=curType || ntGetDim(idx)!=curDim)
@@ -1002,12 +1008,14 @@ static void getFunc(void) {
     ntSetScope(funcIdx, ScFUNC);             // 今回の宣言を定義に変更
     maxCnt = 0;                              // 最大の変数番号
     curCnt = 0;                              // 次出現変数の番号
-    getBlock();                              // 関数本体を読み込む
-    if ((ntGetType(funcIdx)!=TyVOID ||       // void型の関数,
+    getBody();                               // 関数本体を読み込む
+    if (tok=='}'                   &&        // 次が終わりの '}' で
+	(ntGetType(funcIdx)!=TyVOID ||       // void型の関数,
 	 ntGetDim(funcIdx)!=0)      &&       //
 	ntGetType(funcIdx)!=TyINTR  &&       // interupt型以外の関数が
 	lastStat!=LxRETURN)                  // return文で終わっていない
       error("関数がreturnで終わっていない");
+    chkTok('}', "ブロックが '}' で終了していない");
     //syPrintTree();                         // ### デバッグ用 ###
     if (optFlag) optTree(syGetRoot());       // 木を最適化する
     //syPrintTree();                         // ### デバッグ用 ###
-- 
2.43.0


From cafe2a571db49c57db15da841863b6444cea2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 21/46] fix: a function followed by a line marker got the file
 name of the marker in its run-time checks

---
 src--/parser.cmm | 8 ++++----
 src/parser.c     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src--/parser.cmm b/src--/parser.cmm
index 87a25ad..34b90a6 100644
--- a/src--/parser.cmm
+++ b/src--/parser.cmm
@@ -144,15 +144,14 @@ int _tok;                                    // 次のトークン
 
 void getTok() {                              // 次のトークンを入力する
   _tok = lxGetTok();                         //   ディレクティブも入力する
-  if (_tok==LxFILE) setFname(lxGetFname());  // ディレクティブならファイル名記憶
 }
 
 #define tok _getTok()                        // tok 使用は、_getTok() に置換え
 int _getTok() {                              // tok 使用時に
   while (_tok==LxFILE) {                     //   ディレクティブを読み飛ばす
-    _tok = lxGetTok();                       //     次もディレクティブなら     
-    if (_tok==LxFILE) setFname(lxGetFname());//       ファイル名記憶記憶して
-  }                                          //         やり直す
+    setFname(lxGetFname());                  //     ファイル名を記憶して
+    _tok = lxGetTok();                       //     次もディレクティブなら
+  }                                          //       やり直す
   return _tok;
 }
 //-----------------------------------------------------------------------------
@@ -1280,6 +1279,7 @@ public void psGetSrc() {
   getTok();                                  // 最初の tok を読み込む
   while (_tok!=LxEOF) {                      // EOF になるまで
     if (_tok==LxFILE) {                      //  ディレクティブなら
+      setFname(lxGetFname());                //   ファイル名を記憶する
       genDirect(lxGetFln(), lxGetFname());   //   # 行番号 "ファイル名" の処理
       getTok();
     } else {                                 //  ディレクティブ以外なら
diff --git a/src/parser.c b/src/parser.c
index 8043e98..e9c3c84 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -145,15 +145,14 @@ static int _tok;                             // 次のトークン
 
 static void getTok(void) {                   // 次のトークンを入力する
   _tok = lxGetTok();                         //   ディレクティブも入力する
-  if (_tok==LxFILE) setFname(lxGetFname());  // ディレクティブならファイル名記憶
 }
 
 #define tok _getTok()                        // tok 使用は、_getTok() に置換え
 static int _getTok(void) {                   // tok 使用時に
   while (_tok==LxFILE) {                     //   ディレクティブを読み飛ばす
-    _tok = lxGetTok();                       //     次もディレクティブなら     
-    if (_tok==LxFILE) setFname(lxGetFname());//       ファイル名記憶記憶して
-  }                                          //         やり直す
+    setFname(lxGetFname());                  //     ファイル名を記憶して
+    _tok = lxGetTok();                       //     次もディレクティブなら
+  }                                          //       やり直す
   return _tok;
 }
 //-----------------------------------------------------------------------------
@@ -1280,6 +1279,7 @@ void psGetSrc(void) {
   getTok();                                  // 最初の tok を読み込む
   while (_tok!=EOF) {                        // EOF になるまで
     if (_tok==LxFILE) {                      //  ディレクティブなら
+      setFname(lxGetFname());                //   ファイル名を記憶する
       genDirect(lxGetFln(), lxGetFname());   //   # 行番号 "ファイル名" の処理
       getTok();
     } else {                                 //  ディレクティブ以外なら
-- 
2.43.0


From 728afc954d376df59821f25735e5d1840fa5b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 22/46] fix: strStr misses a match at the end of the string

---
 lib/SrcCmm/string.cmm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SrcCmm/string.cmm b/lib/SrcCmm/string.cmm
index 83cd335..9160afc 100644
--- a/lib/SrcCmm/string.cmm
+++ b/lib/SrcCmm/string.cmm
@@ -115,7 +115,7 @@ public int strRchr(char[] s, char c) {
 public int strStr(char[] s1, char[] s2) {
   int l = strLen(s2);
   int d = strLen(s1) - l;
-  for (int i=0; i<d; i=i+1) {
+  for (int i=0; i<=d; i=i+1) {
     int j;
     for (j=0; j<l; j=j+1) {
       if (s1[i+j]!=s2[j]) break;
-- 
2.43.0


From 525c077086b2a6352b9d0b1e60e8200bdd37ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 23/46] fix: _div32 kept 16 bits of the quotient only, and %ld
 printed wrong digits, ignored flags and destroyed its argument (TaC)

---
 lib/SrcTac/crt0.s     | 67 +++++++++++++++++++++++--------------------
 lib/SrcTac/printf.cmm | 30 ++++++++++---------
 2 files changed, 53 insertions(+), 44 deletions(-)

diff --git a/lib/SrcTac/crt0.s b/lib/SrcTac/crt0.s
index 6bb244e..b430864 100644
--- a/lib/SrcTac/crt0.s
+++ b/lib/SrcTac/crt0.s
@@ -161,48 +161,53 @@ __div32                     ; int[] _div32(int[] dst, int src)
         ld      g0,4,sp     ; ディスティネーション(アドレス)
         ld      g1,0,g0     ; ディスティネーション上位ワード
         ld      g2,2,g0     ; ディスティネーション下位ワード
-        ld      g0,#17      ; (g1,g2)は被除数, g0はカウンタ
-        ld      g3,#0       ; g3は商
-.D1     cmp     g1,6,sp     ; 被除数から除数が引けるなら引く
-        jc      .D2         ;
-        sub     g1,6,sp     ;
-        add     g3,#1       ; 引いた時は商の最下位ビットを1にする
-.D2     sub     g0,#1       ; 17回繰り返したなら
-        jz      .D4         ;  終了
-        shll    g1,#1       ; 被除数を左にシフト
+        ld      g3,g1       ;
+        div     g3,6,sp     ; g3は商の上位ワード
+        mod     g1,6,sp     ; (g1,g2)は残りの被除数(g1 < 除数)
+        ld      g0,#16      ; カウンタ
+.D1     shll    g1,#1       ; 被除数を左にシフト
+        jc      .D3         ; 17ビット目に溢れたなら必ず引ける
         shll    g2,#1       ;
-        jnc     .D3         ;
+        jnc     .D2         ;
         add     g1,#1       ;
-.D3     shll    g3,#1       ; 商を左にシフト
-        jmp     .D1
-.D4     ld      g0,4,sp     ; ディスティネーション(アドレス)
-        st      g1,0,g0     ; 余りを上位ワードに格納
-        st      g3,2,g0     ; 商を下位ワードに格納
+.D2     cmp     g1,6,sp     ; 被除数から除数が引けるなら引く
+        jc      .D5         ;
+        jmp     .D4         ;
+.D3     shll    g2,#1       ;
+        jnc     .D4         ;
+        add     g1,#1       ;
+.D4     sub     g1,6,sp     ;
+        add     g2,#1       ; 引いた時は商の最下位ビットを1にする
+.D5     sub     g0,#1       ; 16回繰り返したか
+        jnz     .D1
+        ld      g0,4,sp     ; ディスティネーション(アドレス)
+        st      g3,0,g0     ; 商の上位ワードを格納
+        st      g2,2,g0     ; 商の下位ワードを格納
         pop     g3
         ret
 
 ;; 32ビット剰余算ルーチン
 __mod32                     ; int _mod32(int[] dst, int src)
-        push    g3
-        ld      g0,4,sp     ; ディスティネーション(アドレス)
+        ld      g0,2,sp     ; ディスティネーション(アドレス)
         ld      g1,0,g0     ; ディスティネーション上位ワード
         ld      g2,2,g0     ; ディスティネーション下位ワード
-        ld      g0,#17      ; (g1,g2)は被除数, g0はカウンタ
-        ld      g3,#0       ; g3は商
-.M1     cmp     g1,6,sp     ; 被除数から除数が引けるなら引く
-        jc      .M2         ;
-        sub     g1,6,sp     ;
-        add     g3,#1       ; 引いた時は商の最下位ビットを1にする
-.M2     sub     g0,#1       ; 17回繰り返したなら
-        jz      .M4         ;  終了
-        shll    g1,#1       ; 被除数を左にシフト
+        mod     g1,4,sp     ; (g1,g2)は残りの被除数(g1 < 除数)
+        ld      g0,#16      ; カウンタ
+.M1     shll    g1,#1       ; 被除数を左にシフト
+        jc      .M3         ; 17ビット目に溢れたなら必ず引ける
         shll    g2,#1       ;
-        jnc     .M3         ;
+        jnc     .M2         ;
         add     g1,#1       ;
-.M3     shll    g3,#1       ; 商を左にシフト
-        jmp     .M1
-.M4     ld      g0,g1       ; 余りを返す
-        pop     g3
+.M2     cmp     g1,4,sp     ; 被除数から除数が引けるなら引く
+        jc      .M5         ;
+        jmp     .M4         ;
+.M3     shll    g2,#1       ;
+        jnc     .M4         ;
+        add     g1,#1       ;
+.M4     sub     g1,4,sp     ;
+.M5     sub     g0,#1       ; 16回繰り返したか
+        jnz     .M1
+        ld      g0,g1       ; 余りを返す
         ret
 
 ;; SP の値を取得する
diff --git a/lib/SrcTac/printf.cmm b/lib/SrcTac/printf.cmm
index 25a11c8..f54051a 100644
--- a/lib/SrcTac/printf.cmm
+++ b/lib/SrcTac/printf.cmm
@@ -141,26 +141,30 @@ void conv16(char c, int w, boolean lf, char p) {
 }
 
 // 書式文字列を解析して long（int[]）を出力する
+int[] num = {0, 0};                              // 作業用の long
 void conv32(char c, int w, boolean lf, char p) {
   int[] arg = _iToA(getArg());
   if (c=='d') {                                 // 符号なし10進数だけ利用可
-    int l = _mod32(arg, 10000);
-    _div32(arg, 10000);
-    arg[0] = 0;
-    int m = _mod32(arg, 10000);
-    _div32(arg, 10000);
-    arg[0] = 0;
-    int h = _mod32(arg, 10000);
+    num[0] = arg[0];                            // 引数を壊さないように
+    num[1] = arg[1];                            //   コピーして使用する
+    int l = _mod32(num, 10000);
+    int m = _mod32(_div32(num, 10000), 10000);
+    int h = _mod32(_div32(num, 10000), 10000);
+    int n = numLen(l, 10);                      // 表示の桁数
+    if (h!=0) n = numLen(h, 10) + 8;
+    else if (m!=0) n = numLen(m, 10) + 4;
+    if (!lf) putN(p, w-n);                      // 右詰めなら前に空白
     if (h!=0) {
-      uPutNum(h, w-8, lf, p,   10);
-      uPutNum(m, 4,   lf, '0', 10);
-      uPutNum(l, 4,   lf, '0', 10);
+      uPutNum(h, 0, false, '0', 10);
+      uPutNum(m, 4, false, '0', 10);
+      uPutNum(l, 4, false, '0', 10);
     } else if (m!=0) {
-      uPutNum(m, w-4, lf, p,   10);
-      uPutNum(l, 4,   lf, '0', 10);
+      uPutNum(m, 0, false, '0', 10);
+      uPutNum(l, 4, false, '0', 10);
     } else {
-      uPutNum(l, w,   lf, p,   10);
+      uPutNum(l, 0, false, '0', 10);
     }
+    if (lf) putN(' ', w-n);                     // 左詰めなら後で空白
   } else exit(EUFMT);                           // どれでもなければエラー
 }
 
-- 
2.43.0


From 48157915d53e595c66f4ae7a0dfeebfb0a300d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 24/46] fix: printf of the C library returned the number of
 failed characters

---
 lib/SrcC/printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SrcC/printf.c b/lib/SrcC/printf.c
index 9de0072..0f49df4 100644
--- a/lib/SrcC/printf.c
+++ b/lib/SrcC/printf.c
@@ -46,7 +46,7 @@ static FILE *out;                               // 出力ストリーム
 static int   cnt;                               // 出力文字数
 
 static void putC(char c) {                      // 文字数カウント付き
-  if (!fputc(c, out)) cnt = cnt + 1;            //  出力ルーチン
+  if (fputc(c, out)!=EOF) cnt = cnt + 1;            //  出力ルーチン
 }
 
 static void putN(char c, int n) {               //  c を n 個出力する
-- 
2.43.0


From 627c0348569a37c10c4cd6475aab28e2e56f6c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 25/46] fix: %x and %o of the C library took the width of
 negative numbers as one column

---
 lib/SrcC/printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SrcC/printf.c b/lib/SrcC/printf.c
index 0f49df4..47e738d 100644
--- a/lib/SrcC/printf.c
+++ b/lib/SrcC/printf.c
@@ -80,7 +80,7 @@ static void putNum(unsigned int x, int b) {     // 数値を上の桁から順
 }
 
 // 数値 x が b 進数のとき何桁で表示されるか
-static int numLen(int x, int b) {                      
+static int numLen(unsigned int x, int b) {                      
   int l;
   for (l=0; x!=0; l=l+1)
     x = x / b;
-- 
2.43.0


From cf17a2916491eb406e2a49b7b030bd1bb290a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 26/46] fix: %ld of the C library ignored flags and width for
 values of more than 8 digits

---
 lib/SrcC/printf.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/SrcC/printf.c b/lib/SrcC/printf.c
index 47e738d..27ee256 100644
--- a/lib/SrcC/printf.c
+++ b/lib/SrcC/printf.c
@@ -155,16 +155,21 @@ static void conv32(char c, int w, boolean lf, char p) {
     int m = n % 100000000;
     n = n / 100000000;
     int h = n % 100000000;
+    int k = numLen(l, 10);                      // 表示の桁数
+    if (h!=0) k = numLen(h, 10) + 16;
+    else if (m!=0) k = numLen(m, 10) + 8;
+    if (!lf) putN(p, w-k);                      // 右詰めなら前に空白
     if (h!=0) {
-      uPutNum(h, w-16, lf, p,   10);
-      uPutNum(m, 8,    lf, '0', 10);
-      uPutNum(l, 8,    lf, '0', 10);
+      uPutNum(h, 0, false, '0', 10);
+      uPutNum(m, 8, false, '0', 10);
+      uPutNum(l, 8, false, '0', 10);
     } else if (m!=0) {
-      uPutNum(m, w-8,  lf, p,   10);
-      uPutNum(l, 8,    lf, '0', 10);
+      uPutNum(m, 0, false, '0', 10);
+      uPutNum(l, 8, false, '0', 10);
     } else {
-      uPutNum(l, w,    lf, p,   10);
+      uPutNum(l, 0, false, '0', 10);
     }
+    if (lf) putN(' ', w-k);                     // 左詰めなら後で空白
   } else {
     fputs("Illegal format string\n", stderr);
     exit(1);                                    // どれでもなければエラー
-- 
2.43.0


From 1d420f813a9edf70ff020078848ac7004fb1a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 27/46] fix: sizes beyond 16 bits wrapped around in malloc,
 calloc and the typed variants, which returned blocks that were too small

---
 lib/SrcTac/stdlib.cmm | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/SrcTac/stdlib.cmm b/lib/SrcTac/stdlib.cmm
index 8536215..99d319e 100644
--- a/lib/SrcTac/stdlib.cmm
+++ b/lib/SrcTac/stdlib.cmm
@@ -65,6 +65,7 @@ public void _stdlibInit() {                     // プログラム起動前の
 // メモリを割り付ける
 public void[] malloc(int siz) {                 // メモリ割り当て
   int s = (siz + MBSIZE + 1) & ~1;              // 制御データ分大きい偶数に
+  if (_uCmp(s, siz)<0) _exit(EUNOMEM);          // 16ビットに収まらない
   MemBlk p = memPool;                           // 直前の領域
   MemBlk m = p.next;                            // 対象となる領域
 
@@ -97,17 +98,24 @@ public void[] malloc(int siz) {                 // メモリ割り当て
   return _addrAdd(m, MBSIZE);                   // 管理領域を除いて返す
 }
 
+// s バイトのデータ n 個の大きさ(16ビットに収まらない場合はエラー)
+int dataSize(int n, int s) {
+  int siz = n * s;
+  if (s!=0 && siz/s!=n) _exit(EUNOMEM);
+  return siz;
+}
+
 public int[] iMalloc(int n) {                   // int配列用の malloc
-  return malloc(sizeof(int)*n);
+  return malloc(dataSize(n, sizeof(int)));
 }
 public char[] cMalloc(int n) {                  // char配列用の malloc
-  return malloc(sizeof(char)*n);
+  return malloc(dataSize(n, sizeof(char)));
 }
 public boolean[] bMalloc(int n) {               // boolean配列用の malloc
-  return malloc(sizeof(boolean)*n);
+  return malloc(dataSize(n, sizeof(boolean)));
 }
 public void[][] rMalloc(int n) {                // 参照配列用の malloc
-  return malloc(sizeof(void[])*n);
+  return malloc(dataSize(n, sizeof(void[])));
 }
 
 // メモリを解放する
@@ -147,8 +155,9 @@ public void free(void[] mem) {                  // 領域解放
 
 // ゼロでクリアされた配列を割りあてる
 public void[] calloc(int n, int s) {
-  char[] mem = malloc(n*s);                     // 割当てる。
-  for (int i=0; i<n*s; i=i+1)                   // 領域全体を
+  int siz = dataSize(n, s);
+  char[] mem = malloc(siz);                     // 割当てる。
+  for (int i=0; i!=siz; i=i+1)                  // 領域全体を
     mem[i] = '\0';                              //   ゼロでクリアする
   return mem;                                   // 領域を返す
 }
-- 
2.43.0


From a3e63ced1ca33cf08108c752824e37efe7d3dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 28/46] fix: a stack overflow ended the program with EMEMVIO
 instead of EUSTK

---
 lib/SrcTac/crt0.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SrcTac/crt0.s b/lib/SrcTac/crt0.s
index b430864..ce31afb 100644
--- a/lib/SrcTac/crt0.s
+++ b/lib/SrcTac/crt0.s
@@ -238,6 +238,6 @@ __stkChk
 
 ; スタックがオーバーフローした場合、 _exit(EUSTK) を実行
 .stkOverFlow
-        ld      g0,#-25         ; パラメータ(EUSTK)
+        ld      g0,#-26         ; パラメータ(EUSTK)
         push    g0              ;   をスタックに積む
         call    __exit          ; exit を呼ぶ
-- 
2.43.0


From 2000ac9bf8a34c10772abd6bd9881aaafe4ff212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 29/46] fix: setEnv replaced a variable although overwrite was
 false

---
 lib/SrcTac/environ.cmm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SrcTac/environ.cmm b/lib/SrcTac/environ.cmm
index 2c6a6e8..aff8314 100644
--- a/lib/SrcTac/environ.cmm
+++ b/lib/SrcTac/environ.cmm
@@ -115,6 +115,8 @@ boolean setNEnv(char[] name, int nameLen, char[] value, boolean overwrite) {
       reallocEnv(size);                                     //    配列を再割付
     }
     environ[index+1] = null;                                // null 終端
+  } else if (!overwrite) {                                  // 上書きしないなら
+    return false;                                           //   何もしない
   } else {                                                  // 同名のものがある
     free(environ[index]);                                   //   古いものを解放
   }
-- 
2.43.0


From 4debcfae52f32f34b625a1f2c9007c403eb784a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 30/46] fix: setEnv lost a value that was part of the old value
 of the variable

---
 lib/SrcTac/environ.cmm | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SrcTac/environ.cmm b/lib/SrcTac/environ.cmm
index aff8314..5221d42 100644
--- a/lib/SrcTac/environ.cmm
+++ b/lib/SrcTac/environ.cmm
@@ -117,10 +117,10 @@ boolean setNEnv(char[] name, int nameLen, char[] value, boolean overwrite) {
     environ[index+1] = null;                                // null 終端
   } else if (!overwrite) {                                  // 上書きしないなら
     return false;                                           //   何もしない
-  } else {                                                  // 同名のものがある
-    free(environ[index]);                                   //   古いものを解放
   }
-  environ[index] = makeEnvStr(name, nameLen, value);        // "名前=値"を記録
+  char[] old = environ[index];                              // value は古いものの
+  environ[index] = makeEnvStr(name, nameLen, value);        //  一部でもよい
+  if (old != null) free(old);                               // 古いものを解放
   return false;                                             // 正常終了
 }
 
-- 
2.43.0


From 99e19bb0ba7088382ad2ce5a80835ff3a3cd6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 31/46] fix: chDir changed to files and to directories that are
 not there

---
 lib/SrcTac/environ.cmm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SrcTac/environ.cmm b/lib/SrcTac/environ.cmm
index 5221d42..8fbede4 100644
--- a/lib/SrcTac/environ.cmm
+++ b/lib/SrcTac/environ.cmm
@@ -251,6 +251,8 @@ public boolean chDir(char[] path) {
   char[] buf = cMalloc(BUF);
   if (absPath(path, buf, BUF)) {                    // 絶対パスに変換
     err = true;                                     //   absPath がエラー
+  } else if (_stat(buf, sta)<0) {                   // 存在しない
+    err = true;
   } else if ((sta.attr&0x10)==0) {                  // ディレクトリではない
     errno = EPATH;
     err = true;
-- 
2.43.0


From 6a1fdba0348914631fe9a612c670a267aa0c9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 32/46] fix: C library: fputc, fputs, puts, putchar, fclose and
 fflush returned C values instead of true on error, and puts added a newline
 without -rtc

---
 lib/SrcC/cfunc.hmm |  7 +++++--
 lib/SrcC/wrapper.h | 24 ++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/SrcC/cfunc.hmm b/lib/SrcC/cfunc.hmm
index 367a15b..a067764 100644
--- a/lib/SrcC/cfunc.hmm
+++ b/lib/SrcC/cfunc.hmm
@@ -36,6 +36,11 @@
 #define malloc(s) _mAlloc(s)
 #define feof(fp) _feof(fp)
 #define fseek(s,h,l) _fseek(s,h,l)
+#define fputc(c,f) _fputc(c,f)
+#define fputs(s,f) _fputs(s,f)
+#define puts(s) _puts(s)
+#define fclose(f) _fclose(f)
+#define fflush(f) _fflush(f)
 
 // printf は新しく作り直した
 #define fprintf    _fPrintf
@@ -47,8 +52,6 @@
 // stdio
 #define fopen(p,m) __fOpen(p,m)
 #define fgets(b,n,f) _fgets(b,n,f)
-#define fputs(s,f) _fputs(s,f)
-#define puts(s) _puts(s)
 #define perror(s) _perror(s)
 #define fsize(p,s) _fsize(p,s)
 // stdlib
diff --git a/lib/SrcC/wrapper.h b/lib/SrcC/wrapper.h
index fcbb2ed..d9641b3 100644
--- a/lib/SrcC/wrapper.h
+++ b/lib/SrcC/wrapper.h
@@ -135,6 +135,21 @@ FILE *_fOpen(char *n, char *m);
 // TaC 版では EOF になるタイミングが C 言語より早い
 int _feof(FILE *fp);
 
+// C-- では成功が false，エラーが true
+inline static int _fputc(int c, FILE *fp) {
+  return fputc(c, fp)==EOF;
+}
+
+inline static int _fclose(FILE *fp) {
+  return fclose(fp)==EOF;
+}
+
+inline static int _fflush(FILE *fp) {
+  return fflush(fp)==EOF;
+}
+
+#define putchar(c) _fputc(c, stdout)
+
 // TaC 版ではオフセットが上位と下位に分かれている
 int _fseek(FILE *stream, int offsh, int offsl);
 
@@ -283,6 +298,15 @@ inline static _RA *rMalloc(int n){
 }
 
 #else
+// C-- では成功が false，エラーが true（puts は改行を追加しない）
+inline static int _fputs(char *s, FILE *fp) {
+  return fputs(s, fp)==EOF;
+}
+
+inline static int _puts(char *s) {
+  return fputs(s, stdout)==EOF;
+}
+
 // printf.c
 int _fPrintf(FILE *fp, char *fmt, ...);
 int _printf(char* fmt, ...);
-- 
2.43.0


From 8bd5da7bdf20250997b36c376cda97d09b05a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 33/46] fix: C library: fseek sign-extended the low half of the
 offset and returned -1 instead of true

---
 lib/SrcC/wrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SrcC/wrapper.c b/lib/SrcC/wrapper.c
index 8007c1a..f26f0e8 100644
--- a/lib/SrcC/wrapper.c
+++ b/lib/SrcC/wrapper.c
@@ -112,7 +112,7 @@ int _feof(FILE *fp) {
 
 // TaC 版ではオフセットが上位と下位に分かれている
 int _fseek(FILE *stream, int offsh, int offsl){
-  return fseek(stream,((long)offsh<<32)|(long)offsl,SEEK_SET);
+  return fseek(stream,((long)offsh<<32)|(unsigned)offsl,SEEK_SET)!=0;
 }
 
 // ファイルのサイズを返す
-- 
2.43.0


From 9cdd4c67575c1212be0d2e1750321a9715777ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 34/46] fix: C library: absPath, getWd and chDir were called
 with C-- arrays under -rtc, and absPath truncated silently

---
 lib/SrcC/cfunc.hmm |  6 ++++++
 lib/SrcC/wrapper.h | 28 +++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/lib/SrcC/cfunc.hmm b/lib/SrcC/cfunc.hmm
index a067764..a81b9ba 100644
--- a/lib/SrcC/cfunc.hmm
+++ b/lib/SrcC/cfunc.hmm
@@ -61,6 +61,9 @@
 #define putEnv(s) __putenv(s)
 #define setEnv(n,v,o) __setenv(n,v,o)
 #define unsetEnv(n) __unsetenv(n)
+#define absPath(p,b,n) __absPath(p,b,n)
+#define getWd() __getWd()
+#define chDir(p) __chDir(p)
 
 #else
 // NORTC
@@ -71,4 +74,7 @@
 #define putEnv(s) _putenv(s)
 #define setEnv(n,v,o) _setenv(n,v,o)
 #define unsetEnv(n) _unsetenv(n)
+#define absPath(p,b,n) _absPath(p,b,n)
+#define getWd() _getWd()
+#define chDir(p) _chDir(p)
 #endif
diff --git a/lib/SrcC/wrapper.h b/lib/SrcC/wrapper.h
index d9641b3..d24e6e9 100644
--- a/lib/SrcC/wrapper.h
+++ b/lib/SrcC/wrapper.h
@@ -181,20 +181,22 @@ inline static int _unsetenv(char* name) {
   return unsetenv(name)!=0;
 }
 
-inline static int absPath(char* path, char *buf, int bufSiz) {
+inline static int _absPath(char* path, char *buf, int bufSiz) {
   char *abs = realpath(path, NULL);
   if (abs == NULL) return 1;
-  strncpy(buf, abs, bufSiz);
+  int len = strlen(abs);
+  if (len < bufSiz) strcpy(buf, abs);
   free(abs);
-  return 0;
+  return len >= bufSiz;
 }
 
-static char wd[256];
-inline static char *getWd() {
-  return getcwd(wd, sizeof(wd));
+static struct { int l; char a[256]; } wd;
+inline static char *_getWd() {
+  wd.l = sizeof(wd.a);
+  return getcwd(wd.a, sizeof(wd.a));
 }
 
-inline static int chDir(char *pathname) {
+inline static int _chDir(char *pathname) {
   return chdir(pathname)!=0;
 }
 
@@ -261,6 +263,18 @@ inline static int __unsetenv(_CA* name) {
   return _unsetenv(name->a);
 }
 
+inline static int __absPath(_CA* path, _CA *buf, int bufSiz) {
+  return _absPath(path->a, buf->a, bufSiz);
+}
+
+inline static _CA *__getWd() {
+  return _getWd()==NULL ? NULL : (_CA*)&wd;
+}
+
+inline static int __chDir(_CA *pathname) {
+  return _chDir(pathname->a);
+}
+
 // printf.c
 int _fPrintf(FILE *fp, _CA* fmt, ...);
 int _printf(_CA* fmt, ...);
-- 
2.43.0


From 29c83b82d1acae861faf695b9e0a19c368b76317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 35/46] fix: C library: putEnv kept the caller's buffer and
 removed the variable when there was no =

---
 lib/SrcC/wrapper.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SrcC/wrapper.h b/lib/SrcC/wrapper.h
index d24e6e9..836f33e 100644
--- a/lib/SrcC/wrapper.h
+++ b/lib/SrcC/wrapper.h
@@ -170,7 +170,10 @@ inline static char* _getenv(char* name) {
 }
 
 inline static char _putenv(char* string) {
-  return putenv(string)!=0;
+  char *eq = strchr(string, '=');
+  if (eq==NULL || eq==string) return 1;       // "name=value" ではない
+  string = strdup(string);                    // putenv は引数の領域を使い続ける
+  return string==NULL || putenv(string)!=0;
 }
 
 inline static int _setenv(char* name, char* value, char overwrite) {
-- 
2.43.0


From 03db8439ec8bb9b50135a8b52ff729e8363b09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 36/46] fix: C library: getEnv freed the string it had returned
 before under -rtc

---
 lib/SrcC/wrapper.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/SrcC/wrapper.h b/lib/SrcC/wrapper.h
index 836f33e..109595b 100644
--- a/lib/SrcC/wrapper.h
+++ b/lib/SrcC/wrapper.h
@@ -242,16 +242,14 @@ inline static int _htoi(_CA* str) {
   return htoi(str->a);
 }
 
-_CA* __cmm_getenv;
 inline static _CA* __getenv(_CA* name) {
   char* val = _getenv(name->a);
   if (val==NULL) return NULL;
-  if (__cmm_getenv!=NULL) free(__cmm_getenv);
   int ssize = strlen(val)+1;
-  __cmm_getenv=malloc(sizeof(_CA)+ssize);
-  __cmm_getenv->l = ssize;
-  strcpy(__cmm_getenv->a, val);
-  return __cmm_getenv;
+  _CA* str = _mAlloc(sizeof(_CA)+ssize);      // 以前の結果も使用中かもしれない
+  str->l = ssize;
+  strcpy(str->a, val);
+  return str;
 }
 
 inline static int __putenv(_CA* str) {
-- 
2.43.0


From ff7454deb0b4ccf3fbd721385eb7a7bea4fc2382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 37/46] fix: C library: sizes of allocations were truncated or
 miscomputed, and calloc did not end the program on failure

---
 lib/SrcC/cfunc.hmm |  1 +
 lib/SrcC/wrapper.c | 12 +++++++++++-
 lib/SrcC/wrapper.h | 24 +++++++++++++++---------
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/lib/SrcC/cfunc.hmm b/lib/SrcC/cfunc.hmm
index a81b9ba..b409d6f 100644
--- a/lib/SrcC/cfunc.hmm
+++ b/lib/SrcC/cfunc.hmm
@@ -34,6 +34,7 @@
 // stdio, stdlib の関数は C 言語の名前をそのまま使用する
 // 一部は仕様を変更したので wrapper.c の関数を参照するようにする
 #define malloc(s) _mAlloc(s)
+#define calloc(c,s) _cAlloc(c,s)
 #define feof(fp) _feof(fp)
 #define fseek(s,h,l) _fseek(s,h,l)
 #define fputc(c,f) _fputc(c,f)
diff --git a/lib/SrcC/wrapper.c b/lib/SrcC/wrapper.c
index f26f0e8..c5e1264 100644
--- a/lib/SrcC/wrapper.c
+++ b/lib/SrcC/wrapper.c
@@ -83,7 +83,7 @@ int main(int argc, char *argv[], char *envp[]) {
 #endif
 
 // TaC 版ではエラーチェックして終了する
-void * _mAlloc(int s) {
+void * _mAlloc(size_t s) {
   void *p = malloc(s);
   if (p==NULL) {
     perror("malloc");
@@ -92,6 +92,16 @@ void * _mAlloc(int s) {
   return p;
 }
 
+// TaC 版ではエラーチェックして終了する
+void * _cAlloc(int c, int s) {
+  void *p = calloc(c, s);
+  if (p==NULL) {
+    perror("calloc");
+    exit(1);
+  }
+  return p;
+}
+
 // TaC 版ではエラー原因により null を返す
 FILE *_fOpen(char *n, char *m) {
   FILE *fp = fopen(n, m);
diff --git a/lib/SrcC/wrapper.h b/lib/SrcC/wrapper.h
index 109595b..7e371fe 100644
--- a/lib/SrcC/wrapper.h
+++ b/lib/SrcC/wrapper.h
@@ -127,7 +127,8 @@ void *_iToA(int i) {
 */
 
 // TaC 版ではエラーチェックして終了する
-void * _mAlloc(int s);
+void * _mAlloc(size_t s);
+void * _cAlloc(int c, int s);
 
 // TaC 版ではエラー原因により null を返すので、以下では再現しきれていない
 FILE *_fOpen(char *n, char *m);
@@ -284,30 +285,35 @@ int _printf(_CA* fmt, ...);
 #define environ _environ    // RTCではシステムのenvironは使用できない
 _RA *_environ;              // ライブラリのものとは別のものを準備する
 
+// 配列の大きさが負の場合は領域不足と同じ扱いにする
+inline static void *_aAlloc(size_t h, int n, size_t s) {
+  return _mAlloc(n<0 ? (size_t)-1 : h+s*n);
+}
+
 // int 配列用の malloc
 inline static _IA *iMalloc(int n){
-  _IA* tmp = _mAlloc(sizeof(_IA)+sizeof(int)*n);
+  _IA* tmp = _aAlloc(sizeof(_IA), n, sizeof(int));
   tmp->l = n;
   return tmp;
 }
 
 // char 配列用の malloc
 inline static _CA *cMalloc(int n){
-  _CA* tmp = _mAlloc(sizeof(_CA)+sizeof(char)*n);
+  _CA* tmp = _aAlloc(sizeof(_CA), n, sizeof(char));
   tmp->l = n;
   return tmp;
  }
 
  // boolean 配列用の malloc
 inline static _CA *bMalloc(int n){
-  _CA* tmp = _mAlloc(sizeof(_CA)+sizeof(char)*n);
+  _CA* tmp = _aAlloc(sizeof(_CA), n, sizeof(char));
   tmp->l = n;
   return tmp;
 }
 
 // 参照配列用の malloc
 inline static _RA *rMalloc(int n){
-  _RA* tmp = _mAlloc(sizeof(_RA)+sizeof(char*)*n);
+  _RA* tmp = _aAlloc(sizeof(_RA), n, sizeof(char*));
   tmp->l = n;
   return tmp;
 }
@@ -330,9 +336,9 @@ int _printf(char* fmt, ...);
 extern char **environ;
 
 // RTC無しの場合は普通に領域を確保する
-#define iMalloc(n) _mAlloc(sizeof(int)*n)
-#define cMalloc(n) _mAlloc(sizeof(char)*n)
-#define bMalloc(n) _mAlloc(sizeof(char)*n)
-#define rMalloc(n) _mAlloc(sizeof(char*)*n)
+#define iMalloc(n) _mAlloc(sizeof(int)*(n))
+#define cMalloc(n) _mAlloc(sizeof(char)*(n))
+#define bMalloc(n) _mAlloc(sizeof(char)*(n))
+#define rMalloc(n) _mAlloc(sizeof(char*)*(n))
 
 #endif
-- 
2.43.0


From db3e99fe701bd01d4b7d99610e4eb2db97cebc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 38/46] fix: C library: environ was not updated by setEnv,
 putEnv and unsetEnv under -rtc

---
 lib/SrcC/wrapper.c | 41 ++++++++++++++++++++++++-----------------
 lib/SrcC/wrapper.h | 14 +++++++++++---
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/lib/SrcC/wrapper.c b/lib/SrcC/wrapper.c
index c5e1264..5e32e04 100644
--- a/lib/SrcC/wrapper.c
+++ b/lib/SrcC/wrapper.c
@@ -46,6 +46,28 @@
 #include <errno.h>
 
 #ifdef _RTC
+#undef environ
+extern char **environ;         // システムの環境変数
+
+// environ を RTC 対応のデータ構造に作り直す
+void _newEnviron() {
+  // environの長さを調べる
+  int envc=0;
+  while (environ!=NULL && environ[envc]!=NULL) {
+    envc = envc + 1;
+  }
+
+  _RA *envs = _mAlloc(sizeof(_RA)+sizeof(_RA*)*(envc+1));
+  envs->l = envc + 1;
+  envs->a[envc] = NULL;
+  for (int i=0; i<envc; i=i+1) {
+    envs->a[i] = _mAlloc(sizeof(_CA)+strlen(environ[i])+1);
+    ((_CA*)(envs->a[i]))->l = strlen(environ[i])+1;
+    strcpy(((_CA*)(envs->a[i]))->a, environ[i]);
+  }
+  _environ = envs;         // RTC用のenvironにセットする
+}
+
 // C-- で記述した main 関数
 int __main(int argc, _RA* args, _RA* envs);
 
@@ -61,24 +83,9 @@ int main(int argc, char *argv[], char *envp[]) {
     strcpy(((_CA*)(args->a[i]))->a, argv[i]);
   }
 
-  // envpの長さを調べる
-  int envc=0;
-  while (envp[envc]!=NULL) {
-    envc = envc + 1;
-  }
-
-  // envp を RTC 対応のデータ構造に作り直す
-  _RA *envs = _mAlloc(sizeof(_RA)+sizeof(_RA*)*(envc+1));
-  envs->l = envc + 1;
-  envs->a[envc] = NULL;
-  for (int i=0; i<envc; i=i+1) {
-    envs->a[i] = _mAlloc(sizeof(_CA)+strlen(envp[i])+1);
-    ((_CA*)(envs->a[i]))->l = strlen(envp[i])+1;
-    strcpy(((_CA*)(envs->a[i]))->a, envp[i]);
-  }
-  _environ = envs;         // RTC用のenvironにもセットする
+  _newEnviron();           // envp を RTC 対応のデータ構造に作り直す
 
-  return __main(argc, args, envs);
+  return __main(argc, args, _environ);
 }
 #endif
 
diff --git a/lib/SrcC/wrapper.h b/lib/SrcC/wrapper.h
index 7e371fe..7618a7c 100644
--- a/lib/SrcC/wrapper.h
+++ b/lib/SrcC/wrapper.h
@@ -243,6 +243,8 @@ inline static int _htoi(_CA* str) {
   return htoi(str->a);
 }
 
+void _newEnviron();           // システムの環境変数から _environ を作り直す
+
 inline static _CA* __getenv(_CA* name) {
   char* val = _getenv(name->a);
   if (val==NULL) return NULL;
@@ -254,15 +256,21 @@ inline static _CA* __getenv(_CA* name) {
 }
 
 inline static int __putenv(_CA* str) {
-  return _putenv(str->a);
+  int err = _putenv(str->a);
+  _newEnviron();
+  return err;
 }
 
 inline static int __setenv(_CA* name, _CA* val, int overwrite) {
-  return _setenv(name->a, val->a, overwrite);
+  int err = _setenv(name->a, val->a, overwrite);
+  _newEnviron();
+  return err;
 }
 
 inline static int __unsetenv(_CA* name) {
-  return _unsetenv(name->a);
+  int err = _unsetenv(name->a);
+  _newEnviron();
+  return err;
 }
 
 inline static int __absPath(_CA* path, _CA *buf, int bufSiz) {
-- 
2.43.0


From 408f7119cf5984dea9df12f73549940080dbb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 39/46] fix: cm2e exited with 0 when ld-- or objexe-- had
 failed

---
 src--/cm2e.in | 7 +++++--
 src/cm2e.in   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src--/cm2e.in b/src--/cm2e.in
index 32acf11..c12b99e 100755
--- a/src--/cm2e.in
+++ b/src--/cm2e.in
@@ -116,8 +116,11 @@ done
 
 exename=`expr "${exefile}" : '\(.*\)\.[^./]*$'`
 if [ "${eflag}" != "yes" -a "${sflag}" != "yes" -a "${cflag}" != "yes" ]; then
-  ld-- $$.o  ${LIBDIR}/libtac.o ${objs} > /dev/null
-  objexe-- ${pflag} ${exefile} $$.o | sort --key=1 > ${exename}.map
+  ld-- $$.o  ${LIBDIR}/libtac.o ${objs} > /dev/null || error rm -f $$.o
+  objexe-- ${pflag} ${exefile} $$.o > $$.map \
+    || error rm -f ${exefile} $$.o $$.map
+  sort --key=1 $$.map > ${exename}.map
+  rm -f $$.map
   rm -f ${tmps} $$.o
 fi
 
diff --git a/src/cm2e.in b/src/cm2e.in
index 32acf11..c12b99e 100755
--- a/src/cm2e.in
+++ b/src/cm2e.in
@@ -116,8 +116,11 @@ done
 
 exename=`expr "${exefile}" : '\(.*\)\.[^./]*$'`
 if [ "${eflag}" != "yes" -a "${sflag}" != "yes" -a "${cflag}" != "yes" ]; then
-  ld-- $$.o  ${LIBDIR}/libtac.o ${objs} > /dev/null
-  objexe-- ${pflag} ${exefile} $$.o | sort --key=1 > ${exename}.map
+  ld-- $$.o  ${LIBDIR}/libtac.o ${objs} > /dev/null || error rm -f $$.o
+  objexe-- ${pflag} ${exefile} $$.o > $$.map \
+    || error rm -f ${exefile} $$.o $$.map
+  sort --key=1 $$.map > ${exename}.map
+  rm -f $$.map
   rm -f ${tmps} $$.o
 fi
 
-- 
2.43.0


From cfd7eb878941370060f2bd8ffb67aceffcf620af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 40/46] fix: cm2c exited with 0 when the link had failed

---
 src--/cm2c.in | 3 ++-
 src/cm2c.in   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src--/cm2c.in b/src--/cm2c.in
index 58568be..3eddac8 100755
--- a/src--/cm2c.in
+++ b/src--/cm2c.in
@@ -132,7 +132,8 @@ done
 
 if [ "${eflag}" != "yes" -a "${sflag}" != "yes" -a "${cflag}" != "yes" ]; then
     cc ${CFLAGS} ${RTC} -include ${LIBDIR}/wrapper.h \
-	-o ${exefile} -I${INCDIR} ${LIBDIR}/*.c ${objs} 
+	-o ${exefile} -I${INCDIR} ${LIBDIR}/*.c ${objs} \
+        || error rm -f ${exefile}
     rm -f ${tmps}
 fi
 
diff --git a/src/cm2c.in b/src/cm2c.in
index 02bccfa..345e7b7 100755
--- a/src/cm2c.in
+++ b/src/cm2c.in
@@ -132,7 +132,8 @@ done
 
 if [ "${eflag}" != "yes" -a "${sflag}" != "yes" -a "${cflag}" != "yes" ]; then
     cc ${CFLAGS} ${RTC} -include ${LIBDIR}/wrapper.h \
-	-o ${exefile} -I${INCDIR} ${LIBDIR}/*.c ${objs} 
+	-o ${exefile} -I${INCDIR} ${LIBDIR}/*.c ${objs} \
+        || error rm -f ${exefile}
     rm -f ${tmps}
 fi
 
-- 
2.43.0


From b47b2d83c0f768c3f859adfafb396562d620f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 41/46] fix: cm2c left the .o file of a source in another
 directory in the current one and did not find it again

---
 src--/cm2c.in | 4 ++--
 src/cm2c.in   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src--/cm2c.in b/src--/cm2c.in
index 3eddac8..4989079 100755
--- a/src--/cm2c.in
+++ b/src--/cm2c.in
@@ -109,7 +109,7 @@ while [ $# -gt 0 ]; do
                     objs="${objs} ${name}.o"
                     tmps="${tmps} ${name}.o"
                     cc -c ${CFLAGS} ${RTC} ${INCDIR} -include wrapper.h \
-                        ${name}.c || error rm ${name}.c
+                        -o ${name}.o ${name}.c || error rm ${name}.c
                     rm -f ${name}.c
                 fi
             fi ;;
@@ -118,7 +118,7 @@ while [ $# -gt 0 ]; do
                 objs="${objs} ${name}.o"
                 tmps="${tmps} ${name}.o"
                 cc -c ${CFLAGS} ${RTC} ${INCDIR} -include wrapper.h \
-                    ${name}.c || error
+                    -o ${name}.o ${name}.c || error
             fi ;;
         *.o)
             objs="${objs} ${name}.o" ;;
diff --git a/src/cm2c.in b/src/cm2c.in
index 345e7b7..c67fa91 100755
--- a/src/cm2c.in
+++ b/src/cm2c.in
@@ -109,7 +109,7 @@ while [ $# -gt 0 ]; do
                     objs="${objs} ${name}.o"
                     tmps="${tmps} ${name}.o"
                     cc -c ${CFLAGS} ${RTC} ${INCDIR} -include wrapper.h \
-                        ${name}.c || error rm ${name}.c
+                        -o ${name}.o ${name}.c || error rm ${name}.c
                     rm -f ${name}.c
                 fi
             fi ;;
@@ -118,7 +118,7 @@ while [ $# -gt 0 ]; do
                 objs="${objs} ${name}.o"
                 tmps="${tmps} ${name}.o"
                 cc -c ${CFLAGS} ${RTC} ${INCDIR} -include wrapper.h \
-                    ${name}.c || error
+                    -o ${name}.o ${name}.c || error
             fi ;;
         *.o)
             objs="${objs} ${name}.o" ;;
-- 
2.43.0


From ae1689471506d18a4d0a382148d9750a1abc174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 42/46] fix: cm2c -nostdinc: undone by -rtc or -nortc after it,
 and nothing could be compiled or linked with it

---
 src--/cm2c.in | 18 ++++++++++--------
 src/cm2c.in   | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src--/cm2c.in b/src--/cm2c.in
index 4989079..e8c8b7d 100755
--- a/src--/cm2c.in
+++ b/src--/cm2c.in
@@ -10,13 +10,11 @@ function error {
 #RTC=""
 #CMM="c-c--"
 #LIBDIR=/usr/local/cmmLib/LibNortc
-#INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
 
 # RTC
 RTC="-D_RTC"
 CMM="rtc-c--"
 LIBDIR=/usr/local/cmmLib/LibRtc
-INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
 
 CFLAGS="-g -O0 \
    -funsigned-char -Wno-parentheses-equality -Wno-tautological-compare \
@@ -34,6 +32,7 @@ exefile="a.out"
 sflag="no"
 cflag="no"
 eflag="no"
+nflag="no"
 incdir=""
 while [ $# -gt 0 ]; do
     case "$1" in
@@ -41,18 +40,16 @@ while [ $# -gt 0 ]; do
         -S) sflag="yes";                 shift;;
         -c) cflag="yes";                 shift;;
         -E) eflag="yes";                 shift;;
-        -nostdinc) INCDIR="";            shift;;
+        -nostdinc) nflag="yes";          shift;;
         -rtc)
             RTC="-D_RTC"
             CMM="rtc-c--"
             LIBDIR=/usr/local/cmmLib/LibRtc
-	    INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
             shift;;
         -nortc)
             RTC=""
             CMM="c-c--"
             LIBDIR=/usr/local/cmmLib/LibNortc
-	    INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
             shift;;
         -I) incdir="${incdir} -I$2"; shift; shift;;
         -I*)incdir="${incdir} $1";         shift;;
@@ -82,6 +79,11 @@ while [ $# -gt 0 ]; do
     esac
 done
 
+if [ "${nflag}" == "yes" ]; then
+    INCDIR=""
+else
+    INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
+fi
 
 if [ $# -le 0 ]; then
     echo "${myname} : no input files."                            1>&2
@@ -108,7 +110,7 @@ while [ $# -gt 0 ]; do
                 if [ "${sflag}" != "yes" ]; then
                     objs="${objs} ${name}.o"
                     tmps="${tmps} ${name}.o"
-                    cc -c ${CFLAGS} ${RTC} ${INCDIR} -include wrapper.h \
+                    cc -c ${CFLAGS} ${RTC} ${INCDIR} -include ${LIBDIR}/wrapper.h \
                         -o ${name}.o ${name}.c || error rm ${name}.c
                     rm -f ${name}.c
                 fi
@@ -117,7 +119,7 @@ while [ $# -gt 0 ]; do
             if [ "${eflag}" != "yes" -a "${sflag}" != "yes" ]; then
                 objs="${objs} ${name}.o"
                 tmps="${tmps} ${name}.o"
-                cc -c ${CFLAGS} ${RTC} ${INCDIR} -include wrapper.h \
+                cc -c ${CFLAGS} ${RTC} ${INCDIR} -include ${LIBDIR}/wrapper.h \
                     -o ${name}.o ${name}.c || error
             fi ;;
         *.o)
@@ -132,7 +134,7 @@ done
 
 if [ "${eflag}" != "yes" -a "${sflag}" != "yes" -a "${cflag}" != "yes" ]; then
     cc ${CFLAGS} ${RTC} -include ${LIBDIR}/wrapper.h \
-	-o ${exefile} -I${INCDIR} ${LIBDIR}/*.c ${objs} \
+	-o ${exefile} ${INCDIR} ${LIBDIR}/*.c ${objs} \
         || error rm -f ${exefile}
     rm -f ${tmps}
 fi
diff --git a/src/cm2c.in b/src/cm2c.in
index c67fa91..a619ae9 100755
--- a/src/cm2c.in
+++ b/src/cm2c.in
@@ -10,13 +10,11 @@ function error {
 #RTC=""
 #CMM="c-c--"
 #LIBDIR=/usr/local/cmmLib/LibNortc
-#INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
 
 # RTC
 RTC="-D_RTC"
 CMM="rtc-c--"
 LIBDIR=/usr/local/cmmLib/LibRtc
-INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
 
 CFLAGS="-g -O0 -fcommon \
    -funsigned-char -Wno-parentheses-equality -Wno-tautological-compare \
@@ -34,6 +32,7 @@ exefile="a.out"
 sflag="no"
 cflag="no"
 eflag="no"
+nflag="no"
 incdir=""
 while [ $# -gt 0 ]; do
     case "$1" in
@@ -41,18 +40,16 @@ while [ $# -gt 0 ]; do
         -S) sflag="yes";                 shift;;
         -c) cflag="yes";                 shift;;
         -E) eflag="yes";                 shift;;
-        -nostdinc) INCDIR="";            shift;;
+        -nostdinc) nflag="yes";          shift;;
         -rtc)
             RTC="-D_RTC"
             CMM="rtc-c--"
             LIBDIR=/usr/local/cmmLib/LibRtc
-	    INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
             shift;;
         -nortc)
             RTC=""
             CMM="c-c--"
             LIBDIR=/usr/local/cmmLib/LibNortc
-	    INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
             shift;;
         -I) incdir="${incdir} -I$2"; shift; shift;;
         -I*)incdir="${incdir} $1";         shift;;
@@ -82,6 +79,11 @@ while [ $# -gt 0 ]; do
     esac
 done
 
+if [ "${nflag}" == "yes" ]; then
+    INCDIR=""
+else
+    INCDIR="-I/usr/local/cmmInclude -I${LIBDIR}"
+fi
 
 if [ $# -le 0 ]; then
     echo "${myname} : no input files."                            1>&2
@@ -108,7 +110,7 @@ while [ $# -gt 0 ]; do
                 if [ "${sflag}" != "yes" ]; then
                     objs="${objs} ${name}.o"
                     tmps="${tmps} ${name}.o"
-                    cc -c ${CFLAGS} ${RTC} ${INCDIR} -include wrapper.h \
+                    cc -c ${CFLAGS} ${RTC} ${INCDIR} -include ${LIBDIR}/wrapper.h \
                         -o ${name}.o ${name}.c || error rm ${name}.c
                     rm -f ${name}.c
                 fi
@@ -117,7 +119,7 @@ while [ $# -gt 0 ]; do
             if [ "${eflag}" != "yes" -a "${sflag}" != "yes" ]; then
                 objs="${objs} ${name}.o"
                 tmps="${tmps} ${name}.o"
-                cc -c ${CFLAGS} ${RTC} ${INCDIR} -include wrapper.h \
+                cc -c ${CFLAGS} ${RTC} ${INCDIR} -include ${LIBDIR}/wrapper.h \
                     -o ${name}.o ${name}.c || error
             fi ;;
         *.o)
@@ -132,7 +134,7 @@ done
 
 if [ "${eflag}" != "yes" -a "${sflag}" != "yes" -a "${cflag}" != "yes" ]; then
     cc ${CFLAGS} ${RTC} -include ${LIBDIR}/wrapper.h \
-	-o ${exefile} -I${INCDIR} ${LIBDIR}/*.c ${objs} \
+	-o ${exefile} ${INCDIR} ${LIBDIR}/*.c ${objs} \
         || error rm -f ${exefile}
     rm -f ${tmps}
 fi
-- 
2.43.0


From 2b7f948489c969da210387d782fcd6d0ceee5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 43/46] fix: cm2i, cm2v: an environment variable incdir added
 to the include directories

---
 src--/cm2i.in | 1 +
 src--/cm2v.in | 1 +
 src/cm2i.in   | 1 +
 src/cm2v.in   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src--/cm2i.in b/src--/cm2i.in
index aa3652d..43a46f8 100755
--- a/src--/cm2i.in
+++ b/src--/cm2i.in
@@ -16,6 +16,7 @@ fi
 
 myname=`basename $0`
 eflag="no"
+incdir=""
 while [ $# -gt 0 ]; do
     case "$1" in
         -E) eflag="yes"; shift;;
diff --git a/src--/cm2v.in b/src--/cm2v.in
index 526f827..6094f0b 100755
--- a/src--/cm2v.in
+++ b/src--/cm2v.in
@@ -16,6 +16,7 @@ fi
 
 myname=`basename $0`
 eflag="no"
+incdir=""
 while [ $# -gt 0 ]; do
     case "$1" in
         -E) eflag="yes"; shift;;
diff --git a/src/cm2i.in b/src/cm2i.in
index aa3652d..43a46f8 100755
--- a/src/cm2i.in
+++ b/src/cm2i.in
@@ -16,6 +16,7 @@ fi
 
 myname=`basename $0`
 eflag="no"
+incdir=""
 while [ $# -gt 0 ]; do
     case "$1" in
         -E) eflag="yes"; shift;;
diff --git a/src/cm2v.in b/src/cm2v.in
index 526f827..6094f0b 100755
--- a/src/cm2v.in
+++ b/src/cm2v.in
@@ -16,6 +16,7 @@ fi
 
 myname=`basename $0`
 eflag="no"
+incdir=""
 while [ $# -gt 0 ]; do
     case "$1" in
         -E) eflag="yes"; shift;;
-- 
2.43.0


From f14d061e43496725c879ec214c4eb99b16cdd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 44/46] fix: deeply nested expressions, statements and
 initialisers overflowed the stack

---
 src--/parser.cmm | 15 +++++++++++++++
 src/parser.c     | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src--/parser.cmm b/src--/parser.cmm
index 34b90a6..bbe4a19 100644
--- a/src--/parser.cmm
+++ b/src--/parser.cmm
@@ -105,6 +105,8 @@
 /*
  * グローバルデータ
  */
+#define NestMAX     1000            // 入れ子の深さの上限
+
 int     curIdx;                     // 最近登録した名前表の添字
 char[]  curName;                    // 最近登録した名前のつづり
 int     curScope;                   // 現在のスコープ
@@ -114,6 +116,7 @@ int     curCnt;                     // 最近読み込んだローカル変数
                                     //   構造体フィールドの番号
 boolean pubFlag;                    // public 修飾子を読んだ
 int     funcIdx;                    // 現在読込中の関数
+int     nestLv = 0;                 // 式、文、初期化の入れ子の深さ
 
 boolean optFlag = true;             // 最適化を行う
 boolean krnFlag = false;            // カーネルコンパイルモード
@@ -174,6 +177,12 @@ void chkTok(int expTok, char[] msg) {
   if (!isTok(expTok)) error(msg);                // 予想と異なるとエラー
 }
 
+// 入れ子が一段深くなる(再帰でスタックがあふれる前にエラーにする)
+void incNest() {
+  nestLv = nestLv + 1;
+  if (nestLv>NestMAX) error("入れ子が深過ぎる");
+}
+
 // 型か調べ、curType を書換える．型の場合はtrue、型ではない場合はfalseを返す
 boolean isType() {
   curType=TyNON;                                 // 取り合えず型ではない
@@ -531,6 +540,7 @@ void getFactor(Watch w) {
 
 // 単項演算
 void getUniExpr(Watch w) {
+  incNest();                                  // 入れ子が一段深くなる
   if (isTok('+')) {                           // '+' の場合は
     getUniExpr(w);                            //   まず、式(w)を読み込み
     chkType(w, TyINT);                        //   式(w)が整数型か調べる
@@ -551,6 +561,7 @@ void getUniExpr(Watch w) {
     w.tree = syNewNode(SyBNOT, w.tree, SyNULL);
     w.lhs  = false;
   } else getFactor(w);                        // どれでもなければ因子
+  nestLv = nestLv - 1;
 }
 
 // 型チェックを行った上で2項演算の木を作る
@@ -899,6 +910,7 @@ int lastStat = LxNONTOK;            // 最後の文はどの種類のトーク
 // 文
 int getStat() {
   int sta = SyNULL;
+  incNest();                                   // 入れ子が一段深くなる
   int ltok = tok;                              // 最後に読んだ文(returnがあるか)
   if      (isTok(LxIF))       sta=getIf();     // if 文を見つけた場合
   else if (isTok(LxWHILE))    sta=getWhile();  // while 文を見つけた場合
@@ -917,6 +929,7 @@ int getStat() {
     chkTok(';', "式文の後ろに ';' がない");
   }
   lastStat = ltok;                             // 最後に読んだ文(returnがあるか)
+  nestLv = nestLv - 1;
   return sta;
 }
 
@@ -1157,6 +1170,7 @@ int getGArrayInit0(int dim) {
 // 大域配列の初期化
 int getGArrayInit(int dim) {
   int node = 0;
+  incNest();                                 // 入れ子が一段深くなる
   if (isTok('{')) {                          // '{ ... ' の初期化の場合
     node = getGArrayInit0(dim);              // 初期化の本体(リスト)を読み込む
     chkTok('}', "初期化で '}'が不足");       // '}' をチェック
@@ -1169,6 +1183,7 @@ int getGArrayInit(int dim) {
   } else if (isTok(LxNUL)) {                 // null による初期化の場合
     node = syNewNode(SyCNST, 0, TyREF);      // NULL を木に登録
   } else error("配列の初期化");              // 上のどれでもない入力
+  nestLv = nestLv - 1;
   return node;
 }
 
diff --git a/src/parser.c b/src/parser.c
index e9c3c84..061f5bf 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -106,6 +106,8 @@
 /*
  * グローバルデータ
  */
+#define NestMAX     1000            // 入れ子の深さの上限
+
 static int     curIdx;              // 最近登録した名前表の添字
 static char   *curName;             // 最近登録した名前のつづり
 static int     curScope;            // 現在のスコープ
@@ -115,6 +117,7 @@ static int     curCnt;              // 最近読み込んだローカル変数
                                     //   構造体フィールドの番号
 static boolean pubFlag;             // public 修飾子を読んだ
 static int     funcIdx;             // 現在読込中の関数
+static int     nestLv = 0;          // 式、文、初期化の入れ子の深さ
 
 static boolean optFlag = true;      // 最適化を行う
 static boolean krnFlag = false;     // カーネルコンパイルモード
@@ -175,6 +178,12 @@ static void chkTok(int expTok, char *msg) {
   if (!isTok(expTok)) error(msg);                // 予想と異なるとエラー
 }
 
+// 入れ子が一段深くなる(再帰でスタックがあふれる前にエラーにする)
+static void incNest(void) {
+  nestLv = nestLv + 1;
+  if (nestLv>NestMAX) error("入れ子が深過ぎる");
+}
+
 // 型か調べ、curType を書換える．型の場合はtrue、型ではない場合はfalseを返す
 static boolean isType(void) {
   curType=TyNON;                                 // 取り合えず型ではない
@@ -531,6 +540,7 @@ static void getFactor(struct watch* w) {
 
 // 単項演算
 static void getUniExpr(struct watch* w) {
+  incNest();                                  // 入れ子が一段深くなる
   if (isTok('+')) {                           // '+' の場合は
     getUniExpr(w);                            //   まず、式(w)を読み込み
     chkType(w, TyINT);                        //   式(w)が整数型か調べる
@@ -551,6 +561,7 @@ static void getUniExpr(struct watch* w) {
     w->tree = syNewNode(SyBNOT, w->tree, SyNULL);
     w->lhs  = false;
   } else getFactor(w);                        // どれでもなければ因子
+  nestLv = nestLv - 1;
 }
 
 // 型チェックを行った上で2項演算の木を作る
@@ -899,6 +910,7 @@ static int lastStat = LxNONTOK;     // 最後の文はどの種類のトーク
 // 文
 static int getStat(void) {
   int sta = SyNULL;
+  incNest();                                   // 入れ子が一段深くなる
   int ltok = tok;                              // 最後に読んだ文(returnがあるか)
   if      (isTok(LxIF))       sta=getIf();     // if 文を見つけた場合
   else if (isTok(LxWHILE))    sta=getWhile();  // while 文を見つけた場合
@@ -917,6 +929,7 @@ static int getStat(void) {
     chkTok(';', "式文の後ろに ';' がない");
   }
   lastStat = ltok;                             // 最後に読んだ文(returnがあるか)
+  nestLv = nestLv - 1;
   return sta;
 }
 
@@ -1157,6 +1170,7 @@ static int getGArrayInit0(int dim) {
 // 大域配列の初期化
 static int getGArrayInit(int dim) {
   int node = 0;
+  incNest();                                 // 入れ子が一段深くなる
   if (isTok('{')) {                          // '{ ... ' の初期化の場合
     node = getGArrayInit0(dim);              // 初期化の本体(リスト)を読み込む
     chkTok('}', "初期化で '}'が不足");       // '}' をチェック
@@ -1169,6 +1183,7 @@ static int getGArrayInit(int dim) {
   } else if (isTok(LxNUL)) {                 // null による初期化の場合
     node = syNewNode(SyCNST, 0, TyREF);      // NULL を木に登録
   } else error("配列の初期化");              // 上のどれでもない入力
+  nestLv = nestLv - 1;
   return node;
 }
 
-- 
2.43.0


From 202cd1c24d7b6e5d21e3c0838ae3e4ff05e4eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 45/46] fix: control characters and bytes above 127 were taken
 for keywords

---
 src--/lexer.cmm | 4 ++--
 src/lexer.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src--/lexer.cmm b/src--/lexer.cmm
index ca6c7cf..27d5a65 100644
--- a/src--/lexer.cmm
+++ b/src--/lexer.cmm
@@ -405,9 +405,9 @@ int getSign(){
       getCh();                                     // もう1文字読み飛ばす
       tok = LxDOTDOTDOT;                           // tok=DOTDOTDOT
     } else tok = LxDOTDOT;                         // 構文解析でエラーになる
-  } else {                                         // それ以外の記号は
+  } else if (ch>ord(' ') && ch<=ord('~')) {        // それ以外の記号は
     tok = ch;                                      // tok=文字コード
-  }
+  }                                                // 記号以外はエラー
   getCh();                                         // 最低1文字は読み飛ばす
   return tok;                                      // tok を返す
 }
diff --git a/src/lexer.c b/src/lexer.c
index 279cb71..afb2d2e 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -397,9 +397,9 @@ static int getSign(){
       getCh();                                     // もう1文字読み飛ばす
       tok = LxDOTDOTDOT;                           // tok=DOTDOTDOT
     } else tok = LxDOTDOT;                         // 構文解析でエラーになる
-  } else {                                         // それ以外の記号は
+  } else if (ch>' ' && ch<='~') {                  // それ以外の記号は
     tok = ch;                                      // tok=文字コード
-  }
+  }                                                // 記号以外はエラー
   getCh();                                         // 最低1文字は読み飛ばす
   return tok;                                      // tok を返す
 }
-- 
2.43.0


From 5f07e92052726a444ca1da08cec0b80bf7828c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 46/46] fix: run-time check messages named the line of the next
 token, and -O lost the line of an access

---
 src--/optree.cmm |  3 +++
 src--/parser.cmm | 12 ++++++++++++
 src/optree.c     |  3 +++
 src/parser.c     | 12 ++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/src--/optree.cmm b/src--/optree.cmm
index 7633c4a..bd2fe76 100644
--- a/src--/optree.cmm
+++ b/src--/optree.cmm
@@ -63,6 +63,9 @@ void copyNode(int dst, int src) {
   // 式中のSyNULLはエラー(文中は空文の表現)
   if (src==SyNULL && !SyISSTAT(syGetType(dst))) error("BUG : copyNode");
 
+#ifdef _C
+  if (src!=SyNULL) sySetLn(dst, syGetLn(src));      // 行番号もコピー
+#endif
   if (src!=SyNULL)                                  // 通常のコピー
     setNode(dst, syGetType(src), syGetLVal(src), syGetRVal(src));
   else
diff --git a/src--/parser.cmm b/src--/parser.cmm
index bbe4a19..2225e46 100644
--- a/src--/parser.cmm
+++ b/src--/parser.cmm
@@ -328,6 +328,9 @@ void getIdxOP(Watch w) {
   Watch w2 = newWatch();                        // w2 は添字式
   if (w.dim<=0) error("添字が多すぎる");
   getAsExpr(w2);                                // 添字式(w2)はカンマ式不可
+#ifdef _C
+  int ln = lxGetLn();                           // ']' の行番号
+#endif
   chkTok(']', "']' がない");
   if (w2.type!=TyINT || w2.dim!=0)              // 添字式(w2)の型チェック
     error("配列の添字が整数以外になっている");
@@ -348,6 +351,9 @@ void getIdxOP(Watch w) {
     error("バグ...getIdxOP");
   }
   w.tree = syNewNode(stype, w.tree, w2.tree);//
+#ifdef _C
+  sySetLn(w.tree, ln);                         // 次のトークンの行ではない
+#endif
   w.lhs = true;                               // 演算結果は代入可
   freeWatch(w2);
 }
@@ -356,12 +362,18 @@ void getIdxOP(Watch w) {
 void getDotOP(Watch w) {
   if (w.type>0 || w.dim>0)                     //   式(w)が基本型または配列の
     error("構造体以外に'.' がある");           //   場合は'.'が続いてはならない
+#ifdef _C
+  int ln = lxGetLn();                          // フィールド名の行番号
+#endif
   chkTok(LxNAME, "'.' の次に名前がない");      // '.'の次は必ず名前が必要
   int n = ntSrcField(w.type,lxGetStr());       // 構造体をフィールド名でサーチ
   int cnst = syNewNode(SyCNST, n, w.type);     // フィールドと構造体を記録
   w.type = ntGetType(n);                       // 式(w)をフィールドの型と
   w.dim  = ntGetDim(n);                        //   次元に変更する
   w.tree = syNewNode(SyDOT, w.tree, cnst);     // '.'演算を構文木に追加
+#ifdef _C
+  sySetLn(w.tree, ln);                         // 次のトークンの行ではない
+#endif
   w.lhs = true;                                // 演算結果は代入可
 }
 
diff --git a/src/optree.c b/src/optree.c
index e8f6f17..e4f05e1 100644
--- a/src/optree.c
+++ b/src/optree.c
@@ -62,6 +62,9 @@ static void copyNode(int dst, int src) {
   // 式中のSyNULLはエラー(文中は空文の表現)
   if (src==SyNULL && !SyISSTAT(syGetType(dst))) error("BUG : copyNode");
 
+#ifdef _C
+  if (src!=SyNULL) sySetLn(dst, syGetLn(src));      // 行番号もコピー
+#endif
   if (src!=SyNULL)                                  // 通常のコピー
     setNode(dst, syGetType(src), syGetLVal(src), syGetRVal(src));
   else
diff --git a/src/parser.c b/src/parser.c
index 061f5bf..5bc6217 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -328,6 +328,9 @@ static void getIdxOP(struct watch *w) {
   struct watch *w2 = newWatch();               // w2 は添字式
   if (w->dim<=0) error("添字が多すぎる");
   getAsExpr(w2);                               // 添字式(w2)はカンマ式不可
+#ifdef _C
+  int ln = lxGetLn();                          // ']' の行番号
+#endif
   chkTok(']', "']' がない");
   if (w2->type!=TyINT || w2->dim!=0)           // 添字式(w2)の型チェック
     error("配列の添字が整数以外になっている");
@@ -348,6 +351,9 @@ static void getIdxOP(struct watch *w) {
     error("バグ...getIdxOP");
   }
   w->tree = syNewNode(stype, w->tree, w2->tree);//
+#ifdef _C
+  sySetLn(w->tree, ln);                        // 次のトークンの行ではない
+#endif
   w->lhs = true;                               // 演算結果は代入可
   freeWatch(w2);
 }
@@ -356,12 +362,18 @@ static void getIdxOP(struct watch *w) {
 static void getDotOP(struct watch *w) {
   if (w->type>0 || w->dim>0)                   //   式(w)が基本型または配列の
     error("構造体以外に'.' がある");           //   場合は'.'が続いてはならない
+#ifdef _C
+  int ln = lxGetLn();                          // フィールド名の行番号
+#endif
   chkTok(LxNAME, "'.' の次に名前がない");      // '.'の次は必ず名前が必要
   int n = ntSrcField(w->type,lxGetStr());      // 構造体をフィールド名でサーチ
   int cnst = syNewNode(SyCNST, n, w->type);    // フィールドと構造体を記録
   w->type = ntGetType(n);                      // 式(w)をフィールドの型と
   w->dim  = ntGetDim(n);                       //   次元に変更する
   w->tree = syNewNode(SyDOT, w->tree, cnst);   // '.'演算を構文木に追加
+#ifdef _C
+  sySetLn(w->tree, ln);                        // 次のトークンの行ではない
+#endif
   w->lhs = true;                               // 演算結果は代入可
 }
 
-- 
2.43.0


From 21c57f239065a9998f060191403c2786829d21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 001/137] fix: 6502 (zp,X), (zp),Y and (zp) pointer wraps
 around in zero page

---
 src/sims/mos6502.src/mos6502.cc  | 17 +++++++++++++----
 src/sims/mos6502.src/mos6502cl.h |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 78910b8..fa615b8 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -491,6 +491,16 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
   return h*256+l;
 }
 
+/* Pointer in zero page: address of high byte wraps around in the page */
+u16_t
+cl_mos6502::read_zpg_addr(u8_t a)
+{
+  u8_t h, l;
+  l= rom->read(a);
+  h= rom->read((u8_t)(a+1));
+  return h*256+l;
+}
+
 class cl_cell8 &
 cl_mos6502::imm8(void)
 {
@@ -580,8 +590,7 @@ cl_mos6502::ind(void)
 class cl_cell8 &
 cl_mos6502::zind(void)
 {
-  u16_t a= fetch();
-  a= read_addr(rom, a);
+  u16_t a= read_zpg_addr(fetch());
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 2;
   tick(4);
@@ -592,7 +601,7 @@ class cl_cell8 &
 cl_mos6502::indX(void)
 {
   u8_t a0= fetch() + rX;
-  u16_t a= read_addr(rom, a0);
+  u16_t a= read_zpg_addr(a0);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 3;
   tick(5);
@@ -602,7 +611,7 @@ cl_mos6502::indX(void)
 class cl_cell8 &
 cl_mos6502::indY(void)
 {
-  u16_t a1= read_addr(rom, fetch());
+  u16_t a1= read_zpg_addr(fetch());
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd+= 3;
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 7e063e2..4ebb67a 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -135,6 +135,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual u16_t read_zpg_addr(u8_t a);
 
   virtual void print_regs(class cl_console_base *con);
   virtual int inst_length(t_addr addr);
-- 
2.43.0


From c570137fd663c6aff5b6cd0fdb180151b91f8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 002/137] fix: 6502 RTS keeps PC in 16 bits

---
 src/sims/mos6502.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 51acdc2..28f38c0 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -68,7 +68,7 @@ int
 cl_mos6502::RTS(t_mem code)
 {
   t_addr spbef= rSP;
-  PC= pop_addr()+1;
+  PC= (pop_addr()+1) & 0xffff;
   class cl_stack_ret *op= new cl_stack_ret(instPC, PC, spbef, rSP);
   op->init();
   stack_read(op);
-- 
2.43.0


From 8ee52079fe117d6f01edc05fab5d21a8d57542b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 003/137] fix: Z80 rotate and shift set P/V from the parity of
 the shifted value

---
 src/sims/z80.src/z80mac.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 93696ed..fb735b5 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -186,7 +186,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;		    \
     xy(reg);						    \
   }
 
@@ -201,7 +201,7 @@
       reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;		    \
     xy(reg);						    \
   }
 
@@ -220,7 +220,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;		    \
     xy(reg);						    \
   }
 
@@ -234,7 +234,7 @@
       reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;		    \
     xy(reg);						    \
 }
 
@@ -246,7 +246,7 @@
     reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;		    \
     xy(reg);						    \
   }
 
@@ -264,7 +264,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;		    \
     xy(reg);						    \
   }
 
@@ -276,7 +276,7 @@
     reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;		    \
     xy(reg);						    \
   }
 
@@ -289,7 +289,7 @@
     reg = (reg << 1) | 1;				\
     if (reg == 0) regs.raf.F |= BIT_Z;			\
     if (reg & 0x80) regs.raf.F |= BIT_S;		\
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	\
+    if (parity(reg)) regs.raf.F |= BIT_P;	\
     xy(reg);						\
   }
 
-- 
2.43.0


From 49c0c463bc83d4c8b5b4c0a661282d7efb96426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 004/137] fix: Z80 ADC/SBC half carry counts the incoming carry

---
 src/sims/z80.src/z80mac.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index fb735b5..8b86445 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -57,10 +57,12 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A + (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int cin = (regs.raf.F & BIT_C)?1:0;			\
+    unsigned int half = (accu & 0x0F) + (oper & 0x0F) + cin;		\
+    oper+= cin; res+= cin;						\
     regs.raf.F &= ~(BIT_ALL);  /* clear these */			\
     regs.raf.F &= ~BIT_N;      /* addition */				\
-    if ((accu & 0x0F) + (oper & 0x0F) > 0x0F)  regs.raf.F |= BIT_A;	\
+    if (half > 0x0F)                           regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))           regs.raf.F |= BIT_P;	\
     if (accu + oper > 0xFF)                    regs.raf.F |= BIT_C;	\
     regs.raf.A += oper;							\
@@ -96,10 +98,12 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)(reg);				\
     signed int res = (signed short)regs.HL + (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int cin = (regs.raf.F & BIT_C)?1:0;			\
+    unsigned int half = (accu & 0x0FFF) + (oper & 0x0FFF) + cin;	\
+    oper+= cin; res+= cin;						\
     regs.raf.F &= ~(BIT_ALL);        /* clear these */			\
     regs.raf.F &= ~BIT_N;            /* addition */			\
-    if ((accu & 0x0FFF) + (oper & 0x0FFF) > 0x0FFF) regs.raf.F |= BIT_A; \
+    if (half > 0x0FFF)                              regs.raf.F |= BIT_A; \
     if ((res < -32768) || (res > 32767))            regs.raf.F |= BIT_P; \
     if (accu + oper > 0xFFFF)                       regs.raf.F |= BIT_C; \
     regs.HL += oper;							\
@@ -128,10 +132,12 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A - (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int cin = (regs.raf.F & BIT_C)?1:0;			\
+    unsigned int half = (oper & 0x0F) + cin;				\
+    oper+= cin; res-= cin;						\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0F) < (oper & 0x0F))      regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) < half)               regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))        regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.raf.A -= oper;							\
@@ -145,10 +151,12 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)reg;				\
     signed int res = (signed short)regs.HL - (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int cin = (regs.raf.F & BIT_C)?1:0;			\
+    unsigned int half = (oper & 0x0FFF) + cin;				\
+    oper+= cin; res-= cin;						\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0FFF) < (oper & 0x0FFF))  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0FFF) < half)             regs.raf.F |= BIT_A;	\
     if ((res < -32768) || (res > 32767))    regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.HL -= oper;							\
-- 
2.43.0


From 39145201e63a6f107d365313daf447b01af46419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 005/137] fix: Z80 word access at 0xFFFF wraps around to
 address 0

---
 src/sims/z80.src/z80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3d186e5..9d99ad6 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1111,7 +1111,7 @@ void cl_z80::store1( u16_t addr, t_mem val ) {
 
 void cl_z80::store2( u16_t addr, u16_t val ) {
   ram->write(addr,   val & 0xff);
-  ram->write(addr+1, (val >> 8) & 0xff);
+  ram->write((addr+1) & 0xffff, (val >> 8) & 0xff);
 }
 
 u8_t  cl_z80::get1( u16_t addr ) {
@@ -1122,7 +1122,7 @@ u16_t  cl_z80::get2( u16_t addr ) {
   u16_t  l, h;
   
   l = ram->read(addr  );
-  h = ram->read(addr+1);
+  h = ram->read((addr+1) & 0xffff);
   
   return (h << 8) | l;
 }
-- 
2.43.0


From 7d52435d7afebe80dbb27e724c86e8589931c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 006/137] fix: Z80 relative jumps keep PC in 16 bits

---
 src/sims/z80.src/inst.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 5a20dd8..5bf1d1a 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -730,7 +730,7 @@ cl_z80::inst_djnz(t_mem code)
   j = fetch1();
   //tick(7);
   if ((--regs.bc.h != 0)) {
-    PC += j;
+    PC = (PC+j) & 0xffff;
     //tick(5);
     cond_true= true;
   } else {
@@ -771,33 +771,33 @@ cl_z80::inst_jr(t_mem code)
   //tick(6);
   switch(code) {
     case 0x18: // JR dd
-      PC += j;
+      PC = (PC+j) & 0xffff;
       //tick(5);
     break;
     case 0x20: // JR NZ,dd
       if (!(regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC = (PC+j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x28: // JR Z,dd
       if ((regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC = (PC+j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x30: // JR NC,dd
       if (!(regs.raf.F & BIT_C)) {
-        PC += j;
+        PC = (PC+j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x38: // JR C,dd
       if ((regs.raf.F & BIT_C)) {
-        PC += j;
+        PC = (PC+j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
-- 
2.43.0


From 6b95b678662a0b4f1750af51d6b3cebf7ea2f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 007/137] fix: Z80 CALL reads its target before it pushes the
 return address

---
 src/sims/z80.src/inst.cc | 46 ++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 5bf1d1a..8bfa090 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -1390,13 +1390,15 @@ cl_z80::inst_ret(t_mem code)
 int
 cl_z80::inst_call(t_mem code)
 {
+  u16_t tw;
   switch(code)
     {
     case 0xC4: // CALL NZ,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_Z)) {
-        push2(PC+2);
-        PC = fetch2();
+        tw = fetch2();
+        push2(PC);
+        PC = tw;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1407,8 +1409,9 @@ cl_z80::inst_call(t_mem code)
     case 0xCC: // CALL Z,nnnn
       //tick(9);
       if (regs.raf.F & BIT_Z) {
-        push2(PC+2);
-        PC = fetch2();
+        tw = fetch2();
+        push2(PC);
+        PC = tw;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1417,16 +1420,18 @@ cl_z80::inst_call(t_mem code)
       }
       break;
     case 0xCD: // CALL nnnn
-      push2(PC+2);
-      PC = fetch2();
+      tw = fetch2();
+      push2(PC);
+      PC = tw;
       vc.wr+= 2;
       //tick(16);
       break;
     case 0xD4: // CALL NC,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_C)) {
-        push2(PC+2);
-        PC = fetch2();
+        tw = fetch2();
+        push2(PC);
+        PC = tw;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1437,8 +1442,9 @@ cl_z80::inst_call(t_mem code)
     case 0xDC: // CALL C,nnnn
       //tick(9);
       if (regs.raf.F & BIT_C) {
-        push2(PC+2);
-        PC = fetch2();
+        tw = fetch2();
+        push2(PC);
+        PC = tw;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1449,8 +1455,9 @@ cl_z80::inst_call(t_mem code)
     case 0xE4: // CALL PO,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_P)) {
-        push2(PC+2);
-        PC = fetch2();
+        tw = fetch2();
+        push2(PC);
+        PC = tw;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1461,8 +1468,9 @@ cl_z80::inst_call(t_mem code)
     case 0xEC: // CALL PE,nnnn
       //tick(9);
       if (regs.raf.F & BIT_P) {
-        push2(PC+2);
-        PC = fetch2();
+        tw = fetch2();
+        push2(PC);
+        PC = tw;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1473,8 +1481,9 @@ cl_z80::inst_call(t_mem code)
     case 0xF4: // CALL P,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_S)) {
-        push2(PC+2);
-        PC = fetch2();
+        tw = fetch2();
+        push2(PC);
+        PC = tw;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1485,8 +1494,9 @@ cl_z80::inst_call(t_mem code)
     case 0xFC: // CALL M,nnnn
       //tick(9);
       if (regs.raf.F & BIT_S) {
-        push2(PC+2);
-        PC = fetch2();
+        tw = fetch2();
+        push2(PC);
+        PC = tw;
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
-- 
2.43.0


From 55b00e6b7f2c84ed00ba4db91249600e94e64f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 008/137] fix: Z80 IN r,(C) sets S and Z and clears H

---
 src/sims/z80.src/inst_ed.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2310ff3..7fdedcb 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -86,7 +86,9 @@ int  cl_z80::inst_ed_(t_mem code)
     {
     case 0x40: // IN B,(C)
       regs.bc.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      if (regs.bc.h == 0) regs.raf.F |= BIT_Z;
+      if (regs.bc.h & 0x80) regs.raf.F |= BIT_S;
       if (parity(regs.bc.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -143,7 +145,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x48: // IN C,(C)
       regs.bc.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      if (regs.bc.l == 0) regs.raf.F |= BIT_Z;
+      if (regs.bc.l & 0x80) regs.raf.F |= BIT_S;
       if (parity(regs.bc.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -188,7 +192,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x50: // IN D,(C)
       regs.de.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      if (regs.de.h == 0) regs.raf.F |= BIT_Z;
+      if (regs.de.h & 0x80) regs.raf.F |= BIT_S;
       if (parity(regs.de.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -228,7 +234,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x58: // IN E,(C)
       regs.de.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      if (regs.de.l == 0) regs.raf.F |= BIT_Z;
+      if (regs.de.l & 0x80) regs.raf.F |= BIT_S;
       if (parity(regs.de.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -274,7 +282,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x60: // IN H,(C)
       regs.hl.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      if (regs.hl.h == 0) regs.raf.F |= BIT_Z;
+      if (regs.hl.h & 0x80) regs.raf.F |= BIT_S;
       if (parity(regs.hl.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -314,7 +324,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x68: // IN L,(C)
       regs.hl.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      if (regs.hl.l == 0) regs.raf.F |= BIT_Z;
+      if (regs.hl.l & 0x80) regs.raf.F |= BIT_S;
       if (parity(regs.hl.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -354,7 +366,9 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x70: // IN (C)  set flags only (TSTI)
       {
         u8_t x= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-        regs.raf.F &= ~(BIT_N | BIT_P);
+        regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+        if (x == 0) regs.raf.F |= BIT_Z;
+        if (x & 0x80) regs.raf.F |= BIT_S;
         if (parity(x)) regs.raf.F |= BIT_P;
         vc.rd++;
 	//tick(11);
@@ -381,7 +395,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x78: // IN A,(C)
       regs.raf.A= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      if (regs.raf.A == 0) regs.raf.F |= BIT_Z;
+      if (regs.raf.A & 0x80) regs.raf.F |= BIT_S;
       if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
-- 
2.43.0


From 672c5d220ccdb8e7c63dc37e79247d069919c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 009/137] fix: Z80 RLD and RRD set the flags

---
 src/sims/z80.src/inst_ed.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 7fdedcb..d225dc3 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -319,6 +319,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp >> 4) | (regs.raf.A << 4));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp & 0x0f);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_P | BIT_N);
+      if (regs.raf.A == 0)    regs.raf.F |= BIT_Z;
+      if (regs.raf.A & 0x80)  regs.raf.F |= BIT_S;
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
@@ -360,6 +364,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp << 4) | (regs.raf.A & 0x0f));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp >> 4);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_P | BIT_N);
+      if (regs.raf.A == 0)    regs.raf.F |= BIT_Z;
+      if (regs.raf.A & 0x80)  regs.raf.F |= BIT_S;
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
-- 
2.43.0


From 5e892e83956448181d2f0fe0f5eecfc5891600fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 010/137] fix: Z80 RETN and RETI do not clear IFF2

---
 src/sims/z80.src/inst_ed.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index d225dc3..e9098b8 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -127,7 +127,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x45: // RETN (return from non-maskable interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;      
       //tick(13);
       return(resGO);
@@ -180,7 +179,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x4D: // RETI (return from interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;
       //tick(13);
       return(resGO);
-- 
2.43.0


From 0d05bac836b925bc5a2093c94f533a7ed1cc38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 011/137] fix: Z80 LDDR sets P/V while it repeats

---
 src/sims/z80.src/inst_ed.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index e9098b8..435e194 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -657,6 +657,7 @@ int  cl_z80::inst_ed_(t_mem code)
 	    repeating= true;
 	    cond_true= true;
 	    PC= instPC;
+	    regs.raf.F|= BIT_P;
 	  }
       return(resGO);
     case 0xB9: // CPDR
-- 
2.43.0


From f3ff340f65019e489920ff6eff7c0398f7e5e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 012/137] fix: Z80 CPI, CPD, CPIR and CPDR set flags and step
 HL and BC as documented

---
 src/sims/z80.src/inst_ed.cc | 121 +++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 65 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 435e194..eaced38 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -445,15 +445,18 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xA1: // CPI
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
+      // compare acc with mem(HL), if ACC=mem set Z flag.  Incr HL, decr BC.
       {
-        unsigned char tmp;
-        tmp = get1(regs.HL);
-        cp_bytereg(tmp);
-        ++regs.HL;
-        --regs.BC;
-        if (regs.BC != 0) regs.raf.F |= BIT_P;
-	//tick(15);
+	u8_t cy= regs.raf.F & BIT_C; // carry is not affected
+	ubtmp= get1(regs.HL);
+	cp_bytereg(ubtmp);
+	regs.raf.F&= ~(BIT_C | BIT_P);
+	regs.raf.F|= cy;
+	++regs.HL;
+	--regs.BC;
+	vc.rd++;
+	if (regs.BC != 0)
+	  regs.raf.F|= BIT_P;
       }
       return(resGO);
 
@@ -499,17 +502,19 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
       
     case 0xA9: // CPD
-/* fixme: checkme, compare to other emul. */
-
-      regs.raf.F &= ~(BIT_ALL);  /* clear these */
-      if ((regs.raf.A - get1(regs.HL)) == 0) {
-        regs.raf.F |= (BIT_Z | BIT_P);
+      // compare acc with mem(HL), if ACC=mem set Z flag.  Decr HL, decr BC.
+      {
+	u8_t cy= regs.raf.F & BIT_C; // carry is not affected
+	ubtmp= get1(regs.HL);
+	cp_bytereg(ubtmp);
+	regs.raf.F&= ~(BIT_C | BIT_P);
+	regs.raf.F|= cy;
+	--regs.HL;
+	--regs.BC;
+	vc.rd++;
+	if (regs.BC != 0)
+	  regs.raf.F|= BIT_P;
       }
-      ++regs.HL;
-      --regs.BC;
-      if (regs.BC != 0) regs.raf.F |= BIT_P;
-      vc.rd++;
-      //tick(15);
       return(resGO);
 
     case 0xAA: // IND
@@ -562,28 +567,19 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xB1: // CPIR
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      regs.raf.F &= ~(BIT_P | BIT_A | BIT_Z | BIT_S);  /* clear these */
-      regs.raf.F |= BIT_N;
-      //do {
-        if((regs.raf.A - get1(regs.HL)) == 0)
-          regs.raf.F |= BIT_Z;
-        else
-          regs.raf.F &= ~(BIT_Z);
-        if((regs.raf.A - get1(regs.HL)) & 0x80)
-          regs.raf.F |= BIT_S;
-        else
-          regs.raf.F &= ~(BIT_S);
-/* fixme: set BIT_A correctly. */
-        ++regs.HL;
-        --regs.BC;
-        vc.rd++;
-	//tick(15);
-	//if (regs.BC) //tick(5);
-	//} while (regs.BC != 0 && (regs.raf.F & BIT_Z) == 0);
-	if(regs.BC)
+      // compare acc with mem(HL), if ACC=mem set Z flag.  Incr HL, decr BC.
+      {
+	u8_t cy= regs.raf.F & BIT_C; // carry is not affected
+	ubtmp= get1(regs.HL);
+	cp_bytereg(ubtmp);
+	regs.raf.F&= ~(BIT_C | BIT_P);
+	regs.raf.F|= cy;
+	++regs.HL;
+	--regs.BC;
+	vc.rd++;
+	if (regs.BC != 0)
 	  {
-	    regs.raf.F |= BIT_P;
+	    regs.raf.F|= BIT_P;
 	    if (!(regs.raf.F & BIT_Z))
 	      {
 		cond_true= true;
@@ -591,6 +587,7 @@ int  cl_z80::inst_ed_(t_mem code)
 		PC= instPC;
 	      }
 	  }
+      }
       return(resGO);
 
     case 0xB2: // INIR
@@ -661,35 +658,29 @@ int  cl_z80::inst_ed_(t_mem code)
 	  }
       return(resGO);
     case 0xB9: // CPDR
+      // compare acc with mem(HL), if ACC=mem set Z flag.  Decr HL, decr BC.
       {
-	bool gotit= false;
-	// compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-	regs.raf.F &= ~(BIT_ALL);  /* clear these */
-	//do {
-	  if ((regs.raf.A - get1(regs.HL)) == 0) {
-	    regs.raf.F |= (BIT_Z | BIT_P);
-	    gotit= true;
+	u8_t cy= regs.raf.F & BIT_C; // carry is not affected
+	ubtmp= get1(regs.HL);
+	cp_bytereg(ubtmp);
+	regs.raf.F&= ~(BIT_C | BIT_P);
+	regs.raf.F|= cy;
+	--regs.HL;
+	--regs.BC;
+	vc.rd++;
+	if (regs.BC != 0)
+	  {
+	    regs.raf.F|= BIT_P;
+	    if (!(regs.raf.F & BIT_Z))
+	      {
+		cond_true= true;
+		repeating= true;
+		PC= instPC;
+	      }
 	  }
-	  else
-	    {
-	      --regs.HL;
-	      --regs.BC;
-	      vc.rd++;
-	    }
-	  //tick(15);
-	  //if (regs.BC) //tick(5);
-	  //} while (regs.BC != 0);
-	  if (regs.BC)
-	    {
-	      if (!gotit)
-		{
-		  repeating= true;
-		  cond_true= true;
-		  PC= instPC;
-		}
-	    }
-	return(resGO);
       }
+      return(resGO);
+
     case 0xBA: // INDR
       //do {
         this->store1(regs.HL, inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l));
-- 
2.43.0


From 5e0c6bbcdc776fb66a8dd442d2524f12ed5cef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 013/137] fix: Z80 OUTI and OTIR write to the port in C

---
 src/sims/z80.src/inst_ed.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index eaced38..6edf753 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -476,7 +476,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA3: // OUTI
       regs.bc.h--;
-      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
       vc.wr++;
       vc.rd++;
       SET_Z(regs.bc.h);
@@ -616,7 +616,7 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0xB3: // OTIR
       //do {
         regs.bc.h--;
-        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
         vc.wr++;
         vc.rd++;
         SET_Z(regs.bc.h);
-- 
2.43.0


From 8ccca1843dae6d6dcaae9a96ab27854a9d386347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 014/137] fix: Z80 DAA carry tells whether the high digit was
 corrected

---
 src/sims/z80.src/inst.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 8bfa090..8ec82b8 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -834,18 +834,21 @@ cl_z80::inst_daa(t_mem code)
   else incr = 0;
 
   if ((regs.raf.F & BIT_C) || ((regs.raf.A & 0xf0) > 0x90) || (regs.raf.A > 0x99))
-    incr |= 0x60;
+    {
+      incr |= 0x60;
+      C = BIT_C;
+    }
 
   if (regs.raf.F & BIT_N) {  /* not addition */
     sub_A_bytereg(incr);
   } else {
     add_A_bytereg(incr);
   }
-  regs.raf.F &= ~(BIT_P | BIT_N);
+  regs.raf.F &= ~(BIT_P | BIT_N | BIT_C);
   if (parity(regs.raf.A))
     regs.raf.F |= BIT_P;
   regs.raf.F |= N; /* restore N */
-  regs.raf.F |= C; /* or with original C */
+  regs.raf.F |= C; /* decimal carry */
 
   //tick(3);
   return(resGO);
-- 
2.43.0


From 9324f29fbc696c1bed4209869f3daca049e4ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 015/137] fix: Z80 R counts the opcode fetch after a prefix

---
 src/sims/z80.src/ez80.cc    | 1 +
 src/sims/z80.src/inst_cb.cc | 1 +
 src/sims/z80.src/inst_ed.cc | 1 +
 src/sims/z80.src/inst_xd.cc | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/sims/z80.src/ez80.cc b/src/sims/z80.src/ez80.cc
index 0804a18..57d5431 100644
--- a/src/sims/z80.src/ez80.cc
+++ b/src/sims/z80.src/ez80.cc
@@ -447,6 +447,7 @@ cl_ez80::inst_ed(t_mem prefix)
 
   if (fetch(&code))
     return (resBREAKPOINT);
+  inc_R();
 
   return inst_ed_ez80(code);
 }
diff --git a/src/sims/z80.src/inst_cb.cc b/src/sims/z80.src/inst_cb.cc
index aad9027..0c1cf49 100644
--- a/src/sims/z80.src/inst_cb.cc
+++ b/src/sims/z80.src/inst_cb.cc
@@ -464,6 +464,7 @@ cl_z80::inst_cb(void)
 
   if (fetch(&code))
     return(resBREAKPOINT);
+  inc_R();
   //tick(7);
   switch (code)
     {
diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 6edf753..7f29e44 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -752,6 +752,7 @@ int  cl_z80::inst_ed(t_mem prefix)
 
   if (fetch(&code))
     return(resBREAKPOINT);
+  inc_R();
 
   return inst_ed_(code);
 }
diff --git a/src/sims/z80.src/inst_xd.cc b/src/sims/z80.src/inst_xd.cc
index da0a545..74a1c3c 100644
--- a/src/sims/z80.src/inst_xd.cc
+++ b/src/sims/z80.src/inst_xd.cc
@@ -502,6 +502,7 @@ cl_z80::inst_Xd(t_mem prefix)
   
   if (fetch(&code))
     return(resBREAKPOINT);
+  inc_R();
 
   switch (prefix)
     {
-- 
2.43.0


From fd07cbd1057f4428535a802c9979fbbe2118fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 016/137] fix: validate_address wraps the first address after
 the memory too

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92cdbd0..5ca8218 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -179,7 +179,7 @@ cl_memory::validate_address(t_addr addr)
 {
   while (addr < start_address)
     addr+= size;
-  if (addr > start_address+size)
+  if (addr >= start_address+size)
     {
       addr-= start_address;
       addr%= size;
-- 
2.43.0


From ef18d2dd45346748386536666b50c82d2531ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 017/137] fix: MCS-51 MOVC wraps at the end of code memory

---
 src/sims/s51.src/mov.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/mov.cc b/src/sims/s51.src/mov.cc
index 19c912e..ebc7717 100644
--- a/src/sims/s51.src/mov.cc
+++ b/src/sims/s51.src/mov.cc
@@ -123,7 +123,7 @@ cl_51core::instruction_78/*inst_mov_rn_Sdata*/(t_mem/*uchar*/ code)
 int
 cl_51core::instruction_83/*inst_movc_a_Sa_pc*/(t_mem/*uchar*/ code)
 {
-  acc->write(rom->read(PC + acc->read()));
+  acc->write(rom->read(rom->validate_address(PC + acc->read())));
   tick(1);
   vc.rd++;
   //vc.wr++;
@@ -222,7 +222,7 @@ cl_51core::instruction_93/*inst_movc_a_Sa_dptr*/(t_mem/*uchar*/ code)
 {
   u16_t h= /*sfr*/dptr->read(/*DPH*/1);
   u16_t l= /*sfr*/dptr->read(/*DPL*/0);
-  acc->write(rom->read(h*256 + l +  acc->read()));
+  acc->write(rom->read(rom->validate_address(h*256 + l + acc->read())));
   tick(1);
   vc.rd+= 3;//4;
   //vc.wr++;
-- 
2.43.0


From 17420e9a3cb5b83aaa55236cf5a80c44ede3bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 018/137] fix: i8080 ADC of 0xff with carry keeps the carries

---
 src/sims/i8085.src/ialu.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 80a87f0..767e69c 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -31,9 +31,8 @@ int
 cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 {
   u16_t res;
-  if (add_c && (rF & flagC))
-    op++;
-  res= rA+op;
+  u8_t c= (add_c && (rF & flagC))?1:0;
+  res= rA+op+c;
   rF&= ~fAll_A;
   if (!is_daa) rF&= ~flagA;
   if (res>0xff) rF|= flagC;
@@ -41,7 +40,7 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
   res&= 0xff;
   if (!res) rF|= flagZ;
   if (!is_daa)
-    if ((rA&0xf)+(op&0xf) > 0xf)
+    if ((rA&0xf)+(op&0xf)+c > 0xf)
       rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
-- 
2.43.0


From 3eb6d9e90a1907f6ed5b1c432f595d6b5f37ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 019/137] fix: i8080 SBB counts the borrow, half carry of
 subtracting zero

---
 src/sims/i8085.src/ialu.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 767e69c..c15e4ea 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -54,16 +54,15 @@ int
 cl_i8080::sub8(u8_t op, bool sub_c, bool cmp)
 {
   u16_t orga= rA, orgb= op;
-  if (sub_c && (rF & flagC))
-    op++;
-  op= ~op+1;
-  u16_t res= rA+op;
+  u8_t b= (sub_c && (rF & flagC))?1:0;
+  op= ~op;
+  u16_t res= rA+op+1-b;
   rF&= ~fAll;
-  if (/*res<=0xff*/orga<orgb) rF|= flagC;
+  if (orga<orgb+b) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if ((rA&0xf)+(op&0xf) > 0xf) rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+1-b > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   rF|= ptab[res];
-- 
2.43.0


From 2c18b2ba08e5c9e20066a0e804d5a833c141e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 020/137] fix: i8080 RST 2, 3, 6 and 7 go to their own vectors

---
 src/sims/i8085.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/ibranch.cc b/src/sims/i8085.src/ibranch.cc
index 2e9cef4..aadf8b2 100644
--- a/src/sims/i8085.src/ibranch.cc
+++ b/src/sims/i8085.src/ibranch.cc
@@ -98,7 +98,7 @@ cl_i8080::PCHL(t_mem code)
 int
 cl_i8080::rst(t_mem code)
 {
-  u16_t a= code & 0x28;
+  u16_t a= code & 0x38;
   push2(PC);
   PC= a;
   return resGO;
-- 
2.43.0


From 9fde5f8ca565c28adf52d41bfc1dd1c2c1debc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 021/137] fix: i8080 SHLD and XTHL wrap at 64K

---
 src/sims/i8085.src/imove.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8085.src/imove.cc b/src/sims/i8085.src/imove.cc
index a9bb054..2648507 100644
--- a/src/sims/i8085.src/imove.cc
+++ b/src/sims/i8085.src/imove.cc
@@ -72,7 +72,7 @@ cl_i8080::SHLD_a16(t_mem code)
 {
   u16_t a= fetch16();
   rom->write(a, rL);
-  rom->write(a+1, rH);
+  rom->write((u16_t)(a+1), rH);
   vc.wr+= 2;
   return resGO;
 }
@@ -124,7 +124,7 @@ cl_i8080::XTHL(t_mem code)
   u16_t temp= read_addr(rom, rSP);
   vc.rd+= 2;
   rom->write(rSP, rL);
-  rom->write(rSP+1, rH);
+  rom->write((u16_t)(rSP+1), rH);
   vc.wr+= 2;
   cHL.W(temp);
   return resGO;
-- 
2.43.0


From 333ae2a024e17324db41455c44ab12a385f1d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 022/137] fix: i8080 DAA adjusts the high digit, sets the flags
 and keeps the carry

---
 src/sims/i8085.src/ialu.cc | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index c15e4ea..1364561 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -242,28 +242,17 @@ cl_i8080::RAR(t_mem code)
 int
 cl_i8080::DAA(t_mem code)
 {
-  u8_t corr= 0;
-  if (((rA & 0xf) > 9) || (rF & flagA))
+  u8_t corr= 0, a= rA;
+  bool c= rF & flagC;
+  if (((a & 0xf) > 9) || (rF & flagA))
     corr= 6;
-  u8_t v= rA>>4, c= 10;
-  if (corr==6)
-    c= 9;
-  if ((v >= c) || (rF & flagC))
-    corr|= 0x60;
-  if (corr)
+  if ((a > 0x99) || c)
     {
-      /*u8_t org= rA;
-      rF&= ~(flagS|flagZ|flagV|flagP|flagK);
-      rA+= corr;
-      if (rA&0x80) rF|= flagS;
-      if (!rA) rF|= flagZ;
-      rF|= ADDV8(org, corr, rA);
-      rF|= X5(rA);
-      rF|= ptab[rA];
-      cF.W(rF);
-      cA.W(rA);*/
-      add8(corr, false, true);
+      corr|= 0x60;
+      c= true;
     }
+  add8(corr, false, false);
+  cF.W((rF & ~flagC) | (c?flagC:flagNON));
   return resGO;
 }
 
-- 
2.43.0


From 37db492a438677d907e74787081c652d232005f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 023/137] fix: read_addr wraps at the end of the memory

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f03c52c..1fbae70 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2894,7 +2894,7 @@ cl_uc::read_addr(class cl_memory *m, t_addr start_addr)
 {
   if (!m) return 0;
   // 16 bit little endian, by default
-  return m->read(start_addr) + 256*m->read(start_addr+1);
+  return m->read(start_addr) + 256*m->read(m->validate_address(start_addr+1));
 }
 
 /*
-- 
2.43.0


From e93ae43b8760427a3b5efbb94643cc513b54fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 024/137] fix: is_slot tells the address of the slot in chips
 wider or narrower than 32 bits

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5ca8218..5a1b2f6 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2131,9 +2131,9 @@ cl_memory_chip::is_slot(void *data_ptr, t_addr *addr_of)
   t_addr i= p - a;
   if (width <= 8)
     /*i*/;
-  if (width <= 16)
+  else if (width <= 16)
     i= i/2;
-  if (width <= 32)
+  else
     i= i/4;
   if (addr_of)
     *addr_of= i;
-- 
2.43.0


From 2dccb47f7978f5fa234a696daf24280e3e0df3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 025/137] fix: del_operator on a cell that has no operator

---
 src/core/sim.src/mem.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5a1b2f6..82e4c22 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1364,6 +1364,8 @@ cl_memory_cell::del_operator(class cl_brk *brk)
       else
 	old= ops[src];
     }
+  if (!ops)
+    return;
   ops[dst]= NULL;
   if (old)
     delete old;
@@ -1388,6 +1390,8 @@ cl_memory_cell::del_operator(class cl_hw *hw)
       else
 	old= ops[src];
     }
+  if (!ops)
+    return;
   ops[dst]= NULL;
   if (old)
     delete old;
-- 
2.43.0


From 9e9c5caee4e32c07c9da9d9fdb201c7371baed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 026/137] fix: a read breakpoint does not change what the
 program reads from a peripheral's register

---
 src/core/sim.src/mem.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 82e4c22..818db5f 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1423,8 +1423,9 @@ cl_memory_cell::set_brk(class cl_uc *uc, class cl_brk *brk)
       break;
     case brkREAD: case brkRXRAM: case brkRCODE: case brkRIRAM: case brkRSFR:
       //e= 'R';
-      op= new cl_read_operator(this, uc, brk);
-      break;
+      // the last operator makes the value: a breakpoint must not hide a hw
+      prepend_operator(new cl_read_operator(this, uc, brk));
+      return;
     case brkNONE:
       set_flag(CELL_FETCH_BRK, true);
       return;
-- 
2.43.0


From 1a49a5310fe897ff9788fc09295e9f8af89ec97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 027/137] fix: replacing a bank leaves the banked area decoded

---
 src/core/sim.src/mem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 818db5f..8c361ee 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2721,6 +2721,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
     {
       delete banks[bank_nr];
       banks[bank_nr]= 0;
+      // cells of the area are undecoded now
+      bank= -1;
     }
   banks[bank_nr]= ad;
   /*
-- 
2.43.0


From c3158e7ef69f2a4e065a67678f73f385c6c59459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 028/137] fix: lists of more than 8192 elements wrote behind
 their array

---
 src/core/utils.src/pobjt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/pobjt.h b/src/core/utils.src/pobjt.h
index 0f5238f..7287c80 100644
--- a/src/core/utils.src/pobjt.h
+++ b/src/core/utils.src/pobjt.h
@@ -35,7 +35,7 @@ typedef int	t_index;
 typedef int	(*match_func)(const void *, const void *);
 typedef void	(*iterator_func)(const void *, const void *);
 
-#define max_list_size (0x10000/sizeof(void *))
+#define max_list_size (0x7fffffff/sizeof(void *))
 #define ccNotFound -1
 
 
-- 
2.43.0


From 60554d2cf513671239b9e2702ea52a7185d76712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 029/137] fix: deleting a counter by number destroyed counter 0

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 1fbae70..711b61f 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3152,7 +3152,7 @@ cl_uc::del_counter(int nr)
 
   if (nr >= counters->count)
     return;
-  if ((t= (class cl_ticker *)(counters->at(0))) != 0)
+  if ((t= (class cl_ticker *)(counters->at(nr))) != 0)
     delete t;
   counters->put_at(nr, 0);
 }
-- 
2.43.0


From 40049413d1d1951f39817dd37ca21b48c7ade6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 030/137] fix: MCS-51 accepted a low priority interrupt before
 a pending high priority one

---
 src/sims/s51.src/uc51.cc | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index cdab683..1ac82b6 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1804,7 +1804,8 @@ cl_51core::do_wdt(int cycles)
 int
 cl_51core::do_interrupt(void)
 {
-  int i, ie= 0;
+  int i, ie= 0, PR= -1;
+  class cl_it_src *IS= NULL;
 
   if (interrupt->was_reti)
     {
@@ -1825,21 +1826,31 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  if (state == stIDLE)
+	  if (pr > PR)
 	    {
-	      state= stGO;
-	      sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	      interrupt->was_reti= true;
-	      return(resGO);
+	      // highest priority is serviced first, polling order
+	      // decides among sources of the same priority
+	      PR= pr;
+	      IS= is;
 	    }
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
 	}
     }
+  if (IS)
+    {
+      if (state == stIDLE)
+	{
+	  state= stGO;
+	  sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
+	  interrupt->was_reti= true;
+	  return(resGO);
+	}
+      IS->clear();
+      sim->app->get_commander()->
+	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	      ticks->get_rtime(), ticks->get_ticks(), object_name(IS), PC);
+      IL= new it_level(PR, IS->addr, PC, IS);
+      return(accept_it(IL));
+    }
   return(resGO);
 }
 
-- 
2.43.0


From 449bbfa2c3b9dac41d8ab5e43da0c56f74b4ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 031/137] fix: interrupt sources were non-maskable at random

---
 src/core/sim.src/itsrc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/itsrc.cc b/src/core/sim.src/itsrc.cc
index a1e76bf..f15e650 100644
--- a/src/core/sim.src/itsrc.cc
+++ b/src/core/sim.src/itsrc.cc
@@ -76,6 +76,7 @@ cl_it_src::cl_it_src(cl_uc  *Iuc,
   else
     set_name("unknown");
   active= true;
+  nmi= false;
   parent= NULL;
 }
 
-- 
2.43.0


From 34c84c65427e51548ec5cdd39ee259fd0a613f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 032/137] fix: counters started from an uninitialized time

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 711b61f..419e77b 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -73,6 +73,7 @@ cl_ticker::cl_ticker(int adir, enum ticker_type atype, const char *aname, bool a
   dir= adir;
   type= atype;
   ticks= 0;
+  rtime= 0;
   run = true;
   set_name(aname);
   user= auser;
-- 
2.43.0


From da21fa0c9c7be895a1e9775f4890b8b7c189e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 033/137] fix: hardware whose init does not call the base init
 was on or off at random

---
 src/core/sim.src/hw.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/hw.cc b/src/core/sim.src/hw.cc
index 6e145cf..f6e36b9 100644
--- a/src/core/sim.src/hw.cc
+++ b/src/core/sim.src/hw.cc
@@ -63,6 +63,7 @@ cl_hw::cl_hw(class cl_uc *auc, enum hw_cath cath, int aid, const char *aid_strin
   free(s);
   cfg= 0;
   io= 0;
+  on= true;
   active= false;
 }
 
-- 
2.43.0


From 7f6b5f41b805c61d0eb362111dd29c6db26f6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 034/137] fix: a temporary event breakpoint is removed when it
 has been accepted

---
 src/core/sim.src/uc.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 419e77b..075b79a 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3845,6 +3845,14 @@ cl_uc::check_events(void)
 	(class cl_ev_brk *)(events->object_at(i));
       brk->breaking();
     }
+  // temporary ones are removed when they have been accepted
+  for (i= ebrk->count; i > 0; i--)
+    {
+      class cl_brk *brk= (class cl_brk *)(ebrk->at(i-1));
+      t_index idx;
+      if (brk->perm == brkDYNAMIC && events->index_of(brk, &idx))
+	ebrk->del_bp((t_index)(i-1), 0);
+    }
 }
 
 void
-- 
2.43.0


From 7d8c1cb449f45330fbd98ab518464aefbf4490f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 035/137] fix: hex files for memories wider than 8 bits: word
 addresses, no stray write behind the end

---
 src/core/sim.src/uc.cc | 75 ++++++++++--------------------------------
 1 file changed, 17 insertions(+), 58 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 075b79a..b8f14f3 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1588,8 +1588,10 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
   uchar chk ;     // check
   int  i;
   bool ok;
-  int get_low= 0;
-  uchar lows[4]= { 0, 0, 0, 0 };
+  int get_low= 0; // nuof bytes collected for next word
+  t_mem val= 0;   // the word being collected
+  uint rest= 0;   // and its address
+  int bpw;        // bytes per word
   class cl_memory *mem= is->get_mem();
   if (!mem)
     {
@@ -1597,6 +1599,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 	dd_printf("No memory %s to read in.\n", is->get_mem_name()->cstr());
       return(-1);
     }
+  bpw= (mem->width <= 8)?1:((mem->width <= 16)?2:((mem->width <= 24)?3:4));
 
   //memset(inst_map, '\0', sizeof(inst_map));
   ok= true;
@@ -1632,58 +1635,22 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 		{
 		  if (rtyp == 0)
 		    {
-		      if (mem->width > 8)
-			{
-			  if (mem->width <= 16)
-			    addr/= 2;
-			  else if (mem->width <= 24)
-			    addr/= 3;
-			  else if (mem->width <= 32)
-			    addr/= 4;
-			}
+		      // addresses of the file are byte addresses
+		      addr= (base+addr) / bpw;
 		      for (i= 0; i < dnum; i++)
 			{
-			  if (mem->width <= 8)
+			  val|= (t_mem)(rec[i]) << (8*get_low);
+			  get_low++;
+			  if (get_low == bpw)
 			    {
-			      set_rom(is, base+addr, rec[i], check);
+			      set_rom(is, addr, val, check);
 			      addr++;
 			      written++;
-			    }
-			  else if (mem->width <= 16)
-			    {
-			      switch (get_low)
-				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i];
-				  set_rom(is, base+addr, (lows[1]*256)+lows[0], check);
-				  addr++;
-				  written++;
-				  get_low= 0;
-				  break;
-				}
-			    }
-			  else if (mem->width <= 32)
-			    {
-			      switch (get_low)
-				{
-				case 0: lows[0]= rec[i]; get_low++; break;
-				case 1: lows[1]= rec[i]; get_low++; break;
-				case 2: lows[2]= rec[i]; get_low++; break;
-				case 3: lows[3]= rec[i];
-				  set_rom(is, base+addr,
-					  (lows[3]<<24)+
-					  (lows[2]<<16)+
-					  (lows[1]<<8)+
-					  (lows[0]),
-					  check);
-				  get_low= 0;
-				  lows[3]= lows[2]= lows[1]= lows[0]= 0;
-				  addr++;
-				  written++;
-				  break;
-				}
+			      get_low= 0;
+			      val= 0;
 			    }
 			}
+		      rest= addr;
 		    }
 		  else if (rtyp == 4)
 		    {
@@ -1705,17 +1672,9 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 	    fprintf(stderr, "Read error in record %ld.\n", recnum);
 	}
     }
-  if (mem->width > 8)
-    {
-      for (i= get_low; i<4; i++)
-	lows[i]= 0;
-      set_rom(is, addr,
-	      (lows[3]<<24)+
-	      (lows[2]<<16)+
-	      (lows[1]<<8)+
-	      (lows[0]),
-	      check);
-    }
+  if (get_low > 0)
+    // file ended in the middle of a word
+    set_rom(is, rest, val, check);
   
   return(written);
 }
-- 
2.43.0


From 435879f55b905b8a96bcb2affe2b6a24b377b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 036/137] fix: addresses of S-records for memories wider than 8
 bits

---
 src/core/sim.src/uc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index b8f14f3..54adcd9 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2039,8 +2039,8 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
   if (is->get_mem()->width > 8)
     {
       if (is->get_mem()->width <= 16) a/= 2;
-      if (is->get_mem()->width <= 24) a/= 3;
-      if (is->get_mem()->width <= 32) a/= 4;
+      else if (is->get_mem()->width <= 24) a/= 3;
+      else if (is->get_mem()->width <= 32) a/= 4;
     }
   while (b < data_bytes)
     {
-- 
2.43.0


From 3c467944ae6eb1412492a5fd57b47e96bc229656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 037/137] fix: files load into the memory asked for; comparing
 with a banked memory does not write, banks that do not exist are skipped

---
 src/core/sim.src/mem.cc |  4 ++--
 src/core/sim.src/uc.cc  | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 8c361ee..7cc5fc5 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2791,8 +2791,8 @@ cl_banker::switch_to(int bank_nr, class cl_console_base *con)
 
   if (b == bank)
     return true;
-  if (banks[b] == NULL)
-    return true;
+  if ((b < 0) || (b >= nuof_banks) || (banks[b] == NULL))
+    return false;
   s= as_end - as_begin + 1;
   for (i= 0; i < s; i++)
     {
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 54adcd9..a45d02b 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1496,33 +1496,43 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
       return eq;
     }
   // address space
+  class cl_address_space *as= (class cl_address_space *)mem;
   t_addr la= mem->lowest_valid_address();
   t_addr ha= mem->highest_valid_address();
   if ((addr >= la) && (addr <= ha))
     {
       if (check)
 	{
-	  v= rom->read(addr);
+	  v= as->read(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
 	}
       else
-	rom->download(addr, val);
+	as->download(addr, val);
       return eq;
     }
   t_addr bank, caddr;
   bank= addr / size;
   caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(rom->get_decoder_of(caddr));
+  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
   if (d)
     {
       if (!d->is_banker())
 	{
 	  return true;
 	}
-      d->switch_to(bank, NULL);
-      rom->download(caddr, val);
+      if (!d->switch_to(bank, NULL))
+	return eq; // there is no such bank
+      if (check)
+	{
+	  v= as->read(caddr);
+	  if (!(eq= val == v))
+	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
+				   AU32(addr), MU32(val), MU32(v));
+	}
+      else
+	as->download(caddr, val);
       d->activate(NULL);
     }
   else
-- 
2.43.0


From 0b06a0dee40ddbec481bb74b8fcd8607388354cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 038/137] fix: a record of a hex file with a broken character
 is not loaded

---
 src/core/sim.src/uc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index a45d02b..da56f9d 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1431,6 +1431,8 @@ ReadInt(cl_f *f, bool *ok, int bytes)
   long l= 0;
   int c;
   
+  if (!*ok)
+    return(0);
   *ok= false;
   while (bytes)
     {
-- 
2.43.0


From f6702fa308f262cea51f56bab6da12d2dacce090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 039/137] fix: the last character of a file without a newline
 at its end was lost

---
 src/core/utils.src/fio.cc | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 837a48a..021734b 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -934,27 +934,25 @@ chars
 cl_f::get_s(void)
 {
   chars s= "";
-  char c;
+  int c;
 
-  if (eof())
-    return s;
-  c= get_c();
-  while ((c == '\n') ||
-	 (c == '\r'))
+  do
     {
       if (eof())
 	return s;
       c= get_c();
     }
-  if (eof())
-    return s;
-  s+= c;
-  c= get_c();
-  while (!eof() &&
-	 (c != '\n') &&
-	 (c != '\r'))
+  while ((c == '\n') ||
+	 (c == '\r'));
+  // the last line may end without a newline: eof is already seen
+  // when its last character is read
+  while ((c != '\n') &&
+	 (c != '\r') &&
+	 ((c > 0) || !eof()))
     {
-      s+= c;
+      s+= (char)c;
+      if (eof())
+	break;
       c= get_c();
     }
   return s;
-- 
2.43.0


From 92c44ee96c6773eae170226bb986796976d41afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 040/137] fix: reading past the end of a file waited forever

---
 src/core/utils.src/fio.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 021734b..a84d938 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -922,7 +922,10 @@ cl_f::get_c(void)
 {
   int c;
   while (!check_dev())
-    ;
+    {
+      if (eof())
+	return 0;
+    }
   int i= read_dev(&c, 1);
   if (i > 0)
     return c;
-- 
2.43.0


From ce259e9ffd6cbf0d86fff6b677cc6acf2a3435c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 041/137] fix: hc08: branch and jump targets wrap at 64K

A relative branch or an indexed jump across either end of memory left a
value over 0xffff in the program counter.
---
 src/sims/m68hc08.src/inst.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index f1094d9..36daa2a 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -323,7 +323,7 @@ cl_hc08::inst_cpx(t_mem code, bool prefix)
 int
 cl_hc08::inst_jmp(t_mem code, bool prefix)
 {
-  PC = fetchea(code, prefix);
+  PC = fetchea(code, prefix) & 0xffff;
   tick(1); // extra cycle to reload pipeline
   return(resGO);
 }
@@ -335,7 +335,7 @@ cl_hc08::inst_jsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC = newPC;
+  PC = newPC & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -348,7 +348,7 @@ cl_hc08::inst_bsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC += ofs;
+  PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -692,7 +692,7 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1015,7 +1015,7 @@ cl_hc08::inst_condbranch(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1057,7 +1057,7 @@ cl_hc08::inst_bittestsetclear(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   FLAG_ASSIGN (BIT_C, operand & (1 << bit));
@@ -1091,7 +1091,7 @@ cl_hc08::inst_cbeq(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand1==operand2)
-    PC += ofs;  
+    PC = (PC + ofs) & 0xffff;  
 
   if (code == 0x71 || (!prefix && code == 0x61))
     incx();
-- 
2.43.0


From 2b53a3b4c208ed33def318e92054500644b4dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 042/137] fix: hc08: stores to an indexed address wrap at 64K,
 as loads do

A store through H:X or SP plus an offset over 0xffff was lost.
---
 src/sims/m68hc08.src/hc08mac.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/hc08mac.h b/src/sims/m68hc08.src/hc08mac.h
index 66404ec..cdd4ebc 100644
--- a/src/sims/m68hc08.src/hc08mac.h
+++ b/src/sims/m68hc08.src/hc08mac.h
@@ -20,7 +20,7 @@
 #define store2(addr, val) { ram->write((t_addr) (addr) & 0xffff, (val >> 8) & 0xff); \
                             ram->write((t_addr) (addr+1) & 0xffff, val & 0xff); \
   			    vc.wr+=2; }
-#define store1(addr, val) { ram->write((t_addr) (addr), val); vc.wr++; }
+#define store1(addr, val) { ram->write((t_addr) (addr) & 0xffff, val); vc.wr++; }
 //#define get1(addr) ram->get((t_addr) (addr) & 0xffff)
 #define get1(addr) get_1(addr)
 //#define get2(addr) ((ram->get((t_addr) (addr) & 0xffff) << 8) | ram->get((t_addr) (addr+1) & 0xffff) )
-- 
2.43.0


From 138ca9bf1406b8ad1c35ac44800a58485ead0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 043/137] fix: hc08: DBNZ does not affect the condition codes

---
 src/sims/m68hc08.src/inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 36daa2a..d158575 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -675,8 +675,6 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   }
 
   operand--;
-  FLAG_NZ (operand);
-  FLAG_ASSIGN (BIT_V, operand == 0x7f);
 
   if ((code & 0xf0) == 0x40)
     regs.A = operand;
-- 
2.43.0


From df9a45cfe2a021db808d05a5f3275b608b3a6b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 044/137] fix: hc08: DAA adjusts the accumulator

The adjusted value was computed and dropped, N and Z were left alone.
---
 src/sims/m68hc08.src/inst.cc | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index d158575..6a3fc4c 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -893,26 +893,16 @@ cl_hc08::inst_wait(t_mem code, bool prefix)
 int
 cl_hc08::inst_daa(t_mem code, bool prefix)
 {
-  uchar lsn, msn;
+  uchar adj = 0;
 
-  lsn = regs.A & 0xf;
-  msn = (regs.A >> 4) & 0xf;
-  if (regs.P & BIT_H) {
-    lsn += 16;
-    msn = (msn-1) & 0xf;
-  }
-  if (regs.P & BIT_C)
-    msn += 16;
-
-  FLAG_CLEAR (BIT_C);
-  while (lsn>9) {
-    lsn -= 10;
-    msn++;
-  }
-  if (msn>9) {
-    msn = msn % 10;
+  if ((regs.P & BIT_H) || ((regs.A & 0xf) > 9))
+    adj |= 0x06;
+  if ((regs.P & BIT_C) || (regs.A > 0x99)) {
+    adj |= 0x60;
     FLAG_SET (BIT_C);
   }
+  regs.A += adj;
+  FLAG_NZ (regs.A);
 
   return(resGO);
 }
-- 
2.43.0


From 377f98a83bea4fd354e5b0f8d3a6b529004bf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 045/137] fix: hc08: SWI sets the interrupt mask instead of
 clearing it

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 6a3fc4c..836f79a 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1330,7 +1330,7 @@ cl_hc08::inst_swi(t_mem code, bool prefix)
   tick(1);
   push1(regs.P);
   tick(1);
-  FLAG_CLEAR(BIT_I);
+  FLAG_SET(BIT_I);
 
   PC = get2(0xfffc);
   tick(2);
-- 
2.43.0


From 0b5bca02aad575058d02c8c504361767bd9051f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 046/137] fix: hc08: RSP leaves the high byte of the stack
 pointer alone

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 836f79a..131f466 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -158,7 +158,7 @@ cl_hc08::inst_setclearflags(t_mem code, bool prefix)
 int
 cl_hc08::inst_rsp(t_mem code, bool prefix)
 {
-  regs.SP = 0x00ff;
+  regs.SP |= 0x00ff; // high byte is not affected
   return(resGO);
 }
 
-- 
2.43.0


From 3ab56ee42816765f582a21704426098478021a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 047/137] fix: avr: CPI, SUBI and SBCI use all bits of the
 immediate operand

The high nibble of the constant was ORed into the low one.
---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 22d4524..259409c 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -43,7 +43,7 @@ cl_avr::cpi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -93,7 +93,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -144,7 +144,7 @@ cl_avr::subi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
-- 
2.43.0


From ae3155b010c2b390fba5138ec5b8345384b2f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 048/137] fix: avr: SBCI, SBC, CPC and ROR compute their result

The conditional operator took the whole expression as its condition.
---
 src/sims/avr.src/arith_inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 259409c..dcc3a18 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -101,7 +101,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)K-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)K-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -237,7 +237,7 @@ cl_avr::cpc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   
   sreg= sreg & ~(BIT_H|BIT_S|BIT_V|BIT_N|BIT_C);
@@ -287,7 +287,7 @@ cl_avr::sbc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -751,7 +751,7 @@ cl_avr::ror_Rd(t_mem code)
       sreg|= BIT_C;
       c= 1;
     }
-  result= (D >> 1) | oldc?0x80:0;
+  result= (D >> 1) | (oldc?0x80:0);
   res= result & 0xff;
   ram->write(d, res);
   if (res & 0x80)
-- 
2.43.0


From 059175d6f67f0702e0e89d5f48935dc6d4b92c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 049/137] fix: avr: carry counts in the half carry of ADC

---
 src/sims/avr.src/arith_inst.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index dcc3a18..5611e59 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -485,7 +485,8 @@ cl_avr::adc_Rd_Rr(t_mem code)
   R= ram->read(r);
   D= ram->read(d);
   t_mem sreg= ram->get(SREG);
-  result= D+R+((sreg&BIT_C)?1:0);
+  t_mem c= (sreg&BIT_C)?1:0;
+  result= D+R+c;
   res= result & 0xff;
   ram->write(d, res);
   
@@ -509,7 +510,7 @@ cl_avr::adc_Rd_Rr(t_mem code)
     sreg|= BIT_C;
   else
     sreg&= ~BIT_C;
-  if ((R&0xf) + (D&0xf) > 15)
+  if ((R&0xf) + (D&0xf) + c > 15)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From 039e2ec43625d585d25a1f3a904ca3677d53d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 050/137] fix: avr: overflow flag of ADIW, operand of SBIW is
 unsigned

---
 src/sims/avr.src/arith_inst.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 5611e59..ce7f5f4 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -881,7 +881,7 @@ cl_avr::adiw_Rdl_K(t_mem code)
     sreg|= BIT_Z;
   else
     sreg&= ~BIT_Z;
-  if (D&res&0x8000)
+  if ((~D)&res&0x8000)
     sreg|= (BIT_V|BIT_S);
   else
     sreg&= ~(BIT_V|BIT_S);
@@ -919,8 +919,6 @@ cl_avr::sbiw_Rdl_K(t_mem code)
   dl= 24+(2*((code&0x30)>>4));
   K= ((code&0xc0)>>2)|(code&0xf);
   D= ram->read(dl+1)*256 + ram->read(dl);
-  if (K & 0x20)
-    K|= ~0x3f;
   if (D & 0x8000)
     D|= ~0xffff;
   result= (signed)D-(signed)K;
-- 
2.43.0


From 8aa4dd64fe4d6d0e6ce5ba95e231b9cee6f7469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 051/137] fix: avr: half carry of NEG, zero flag of MUL

---
 src/sims/avr.src/arith_inst.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index ce7f5f4..7bb30f0 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -576,7 +576,7 @@ cl_avr::neg_Rd(t_mem code)
   ram->write(d, res);
   
   t_mem sreg= ram->get(SREG);
-  if (res & (~d) & 0x08)
+  if ((res | D) & 0x08)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
@@ -845,9 +845,11 @@ cl_avr::mul_Rd_Rr(t_mem code)
   resh= (result>>8) & 0xff;
   ram->write(0, resl);
   ram->write(1, resh);
-  t_mem sreg= ram->read(SREG) & ~BIT_C;
+  t_mem sreg= ram->read(SREG) & ~(BIT_C|BIT_Z);
   if (resh & 0x80)
     sreg|= BIT_C;
+  if (!resh && !resl)
+    sreg|= BIT_Z;
   ram->write(SREG, sreg);
   tick(1);
   return(resGO);
-- 
2.43.0


From 2a7978c6ddb4335f84997f8cb7660e668700efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 052/137] fix: avr: ANDI and ORI take their operand from
 r16..r31

---
 src/sims/avr.src/logic_inst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/logic_inst.cc b/src/sims/avr.src/logic_inst.cc
index 6d7ae2e..b731165 100644
--- a/src/sims/avr.src/logic_inst.cc
+++ b/src/sims/avr.src/logic_inst.cc
@@ -44,7 +44,7 @@ cl_avr::ori_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K | ram->read(d);
+  data= K | ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
@@ -66,7 +66,7 @@ cl_avr::andi_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K & ram->read(d);
+  data= K & ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
-- 
2.43.0


From 2329d9b1d3afa67c9608172112f7e6c1e20252f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 053/137] fix: avr: Z is a byte address in LPM

---
 src/sims/avr.src/move_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index cfd46fa..cd7aa41 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -43,7 +43,7 @@ cl_avr::lpm(t_mem code)
   t_mem data;
 
   addr= ram->get(ZH)*256 + ram->get(ZL);
-  data= rom->read(addr);
+  data= rom->read(addr>>1);
   vc.rd++;
   if (addr & 1)
     ram->/*write*/set(0, (data>>8)&0xff);
-- 
2.43.0


From 54072f50f35342f1658e082251134bc925804af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 054/137] fix: avr: low byte of a return address is pushed
 first

The stack holds the high byte at the lower address, so two registers pushed
low byte first can be the target of RET.
---
 src/sims/avr.src/avr.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7e3e3ca..9e2f8a9 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -692,9 +692,9 @@ cl_avr::push_addr(t_addr addr)
   sp= 0xffff & (256*sph + spl);
   al= addr & 0xff;
   ah= (addr>>8) & 0xff;
-  ram->write(sp, ah);
-  sp= 0xffff & (sp-1);
   ram->write(sp, al);
+  sp= 0xffff & (sp-1);
+  ram->write(sp, ah);
   vc.wr+= 2;
   sp= 0xffff & (sp-1);
   spl= sp & 0xff;
@@ -734,9 +734,9 @@ cl_avr::pop_addr(t_addr *addr)
   sph= ram->read(SPH);
   sp= 256*sph + spl;
   sp= 0xffff & (sp+1);
-  al= ram->read(sp);
-  sp= 0xffff & (sp+1);
   ah= ram->read(sp);
+  sp= 0xffff & (sp+1);
+  al= ram->read(sp);
   vc.rd+= 2;
   *addr= ah*256 + al;
   spl= sp & 0xff;
-- 
2.43.0


From 3b3c1a9bd7424fdad0529ca03ec7ce4ab641bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 055/137] fix: avr: SBIC and SBIS skip both words of a two word
 instruction

The code of the instruction was used as its address.
---
 src/sims/avr.src/jump_inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 85268d9..b539161 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -384,8 +384,8 @@ cl_avr::sbic_P_b(t_mem code)
   vc.rd++;
   if (0 == (mask & ram->read(addr)))
     {
-      code= fetch();
-      int size= inst_length(code);
+      int size= inst_length(PC);
+      fetch();
       while (size > 1)
 	{
 	  fetch();
@@ -414,8 +414,8 @@ cl_avr::sbis_P_b(t_mem code)
   vc.rd++;
   if (mask & ram->read(addr))
     {
-      code= fetch();
-      int size= inst_length(code);
+      int size= inst_length(PC);
+      fetch();
       while (size > 1)
 	{
 	  fetch();
-- 
2.43.0


From 1cf6962f670d7c54f7a13c74129a458b3ffed3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:17 +0000
Subject: [PATCH 056/137] fix: avr: data memory above 7fh is decoded

Everything over 7fh shared one location, the stack included.
---
 src/sims/avr.src/avr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 9e2f8a9..1fba550 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -188,11 +188,11 @@ cl_avr::make_memories(void)
   as->decoders->add(ad);
   ad->activate(0);
 
-  chip= new cl_chip8("iram_chip", 0x80, 8);
+  chip= new cl_chip8("iram_chip", 0x10000, 8);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as= ram/*address_space(MEM_IRAM_ID)*/,
-			     chip, 0, 0x7f, 0);
+			     chip, 0, 0xffff, 0);
   ad->init();
   as->decoders->add(ad);
   ad->activate(0);
-- 
2.43.0


From 2b75abc662bc8ab1027195bf15af7c580779cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 057/137] fix: i8048: DJNZ decrements and tests the register of
 the opcode

The register number was taken from the wrong bits of the opcode (always R7), and the pointer to the register cell was tested instead of its value, so that the jump was always taken.
---
 src/sims/i8048.src/branch.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 8286f10..336982d 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -163,10 +163,10 @@ CL2::JMPPIA(MP)
 int
 CL2::djnz(MP)
 {
-  u8_t r= (code>>5)&7;
+  u8_t r= code&7;
   u8_t a= fetch();
   R[r]->W(R[r]->R() - 1);
-  if (R[r] != 0)
+  if (R[r]->R() != 0)
     {
       PC&= 0xf00;
       PC+= a;
-- 
2.43.0


From 5f992029298330a0d4cafe60e0c4867e43abf2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 058/137] fix: i8048: implement ADDC A,@R0 and ADDC A,@R1

They were in the disassembler table only; executing one stopped the simulation as an invalid instruction.
---
 src/sims/i8048.src/i8020cl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index a89545a..07fa138 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -223,6 +223,8 @@ protected:
   int ADCI8(MP) { return add(fetch(), true); }
   int ADDIR0(MP) { return add(read_ir(0), false); }
   int ADDIR1(MP) { return add(read_ir(1), false); }
+  int ADCIR0(MP) { return add(read_ir(0), true); }
+  int ADCIR1(MP) { return add(read_ir(1), true); }
   int ADDR0(MP) { return add(R[0]->read(), false); }
   int ADDR1(MP) { return add(R[1]->read(), false); }
   int ADDR2(MP) { return add(R[2]->read(), false); }
-- 
2.43.0


From 9581d91dedc6a4deb9c7b3539364751a28403684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 059/137] fix: i8048: A11 is held at 0 during interrupt service

JMP and CALL of an interrupt routine went to bank 1 if the interrupted program had selected it.
---
 src/sims/i8048.src/branch.cc | 4 ++--
 src/sims/i8048.src/i8048.cc  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 336982d..24b04c0 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -34,7 +34,7 @@ cl_i8020::jmp(MP)
   u16_t a;
   a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   PC= a;
   return resGO;
 }
@@ -44,7 +44,7 @@ CL2::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(false);
   PC= a;
   return resGO;
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index ea55699..4d1c7c1 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -266,7 +266,7 @@ cl_i8048::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(true);
   PC= a;
   return resGO;
-- 
2.43.0


From eb9b2fcf2c43a47f9e237905c5321bae4ec2f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 060/137] fix: i8048: timer overflow requests the timer
 interrupt

Only the overflow flag was set, which is not what the interrupt source watches, so that the timer interrupt was never taken.
---
 src/sims/i8048.src/timer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/timer.cc b/src/sims/i8048.src/timer.cc
index 402cafc..1f44d85 100644
--- a/src/sims/i8048.src/timer.cc
+++ b/src/sims/i8048.src/timer.cc
@@ -143,7 +143,10 @@ cl_timer::do_overflow(void)
 {
   cfg_write(tcfg_tflag, 1);
   if (int_enabled)
-    cfg_write(tcfg_ovflag, 1);
+    {
+      cfg_write(tcfg_ovflag, 1);
+      cfg_write(tcfg_irq, 1);
+    }
 }
 
 const char *
-- 
2.43.0


From 5d31b4c05d6292666a7d438a9a3cfc3c3038feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 061/137] fix: i8048: a transfer to the port expander keeps the
 high half of P2

---
 src/sims/i8048.src/port.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/port.cc b/src/sims/i8048.src/port.cc
index cb6b030..b57056f 100644
--- a/src/sims/i8048.src/port.cc
+++ b/src/sims/i8048.src/port.cc
@@ -219,7 +219,7 @@ cl_p2::set_low(u8_t val)
   r&= 0xf0;
   val&= 0xf;
   r|= val;
-  cfg_write(port_odr, val);
+  cfg_write(port_odr, r);
 }
 
 
-- 
2.43.0


From c3b0b68d7ef50600dde2085002ebcc9b7d0e5d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 062/137] fix: m6809: additions, subtractions and comparisons
 keep the other flags

They set the E, F, I (and 16 bit ones the H) bits of CC, masking the interrupts.
---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b2796ed..a32569d 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1003,7 +1003,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
 
   if (c) { ++res, ++o; }
   
-  reg.CC= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
   if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
@@ -1033,7 +1033,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     res++;
   r= res;
   
-  reg.CC= (u8_t)(~(flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagV|flagS|flagZ|flagC));
   //if ((res < (int)(0x8000)) || (res > (int)(0x7fff)))
   if (is_sub)
     {
-- 
2.43.0


From d5118e90ac32f1ba581c55c4cabf3994d56c2225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 063/137] fix: m6809: half carry of ADC when the low digit of
 the operand is 15 and carry is set

---
 src/sims/m6809.src/m6809.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index a32569d..01f05da 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1001,10 +1001,12 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
   unsigned int o= op;
   signed int res= (signed char)d + (signed char)o;
 
+  bool half= ((d & 0xf) + (o & 0xf) + (c?1:0)) > 0xf;
+
   if (c) { ++res, ++o; }
   
   reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
-  if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
+  if (half)                         reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
   if (invert_c)
-- 
2.43.0


From 5f495f639c757a7fddfd870847b0cf1bec35b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 064/137] fix: m6809: ASL sets the V flag

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 01f05da..ed8a5dd 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1921,6 +1921,8 @@ cl_m6809::inst_asl(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
   op8= (acc)?(*acc):(vc.rd++, tick(1), rom->read(ea));
   newc= op8 & 0x80;
   
+  SET_O( (op8&0x80) ^ ((op8<<1)&0x80) );
+
   op8<<= 1;
 
   if (acc)
-- 
2.43.0


From 28b5d611d798d282baa418c5444647903b3a2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 065/137] fix: m6809: relative branches wrap around in the 64 K
 address space

---
 src/sims/m6809.src/m6809.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index ed8a5dd..38d48e3 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1350,7 +1350,7 @@ cl_m6809::inst_10(t_mem code)
       {
 	u16_t u= fetch()*256 + fetch();
 	i16_t i= u;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	tick(2);
 	break;
       }
@@ -1363,7 +1363,7 @@ cl_m6809::inst_10(t_mem code)
 	rom->write(--reg.S, (PC>>8)&0xff);
 	tick(2);
 	vc.wr+= 2;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	break;
       }
     case 0x08: // --
@@ -1543,7 +1543,7 @@ cl_m6809::inst_branch(t_mem code, bool l)
     }
   if (t)
     {
-      PC= PC + i;
+      PC= (PC + i) & 0xffff;
       tick(1);
     }
       
-- 
2.43.0


From db0b4811c9b001a7c7fc221b7b7227427d12f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 066/137] fix: m6809: effective addresses wrap around in the 64
 K address space

An indexed address below 0 or above 0xffff accessed no memory at all.
---
 src/sims/m6809.src/m6809.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 38d48e3..856102b 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -925,14 +925,15 @@ cl_m6809::index2ea(u8_t idx, t_addr *res_ea)
       if (ind && (idx & 0x10))
 	{
 	  u16_t a;
-	  a= rom->read(ea)*256 + rom->read(ea+1);
+	  ea&= 0xffff;
+	  a= rom->read(ea)*256 + rom->read((ea+1) & 0xffff);
 	  ea= a;
 	  tick(2);
 	}
     }
 
   if (res_ea)
-    *res_ea= ea;
+    *res_ea= ea & 0xffff;
   return resGO;
 }
 
@@ -1135,7 +1136,7 @@ int
 cl_m6809::inst_st16(t_mem code, u16_t src, t_addr ea)
 {
   rom->write(ea  , (src)>>8);
-  rom->write(ea+1, (src)&0xff);
+  rom->write((ea+1) & 0xffff, (src)&0xff);
   tick(2);
   vc.wr+= 2;
   
@@ -1222,7 +1223,7 @@ cl_m6809::inst_alu(t_mem code)
 	  }
 	else
 	  {
-	    op16= op8*256 + rom->read(ea+1);
+	    op16= op8*256 + rom->read((ea+1) & 0xffff);
 	    tick(1);
 	    vc.rd++;
 	  }
@@ -1263,7 +1264,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1305,7 +1306,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -2247,7 +2248,7 @@ cl_m6809::inst_page1(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
@@ -2345,7 +2346,7 @@ cl_m6809::inst_page2(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
-- 
2.43.0


From 2d0eea1c3ab593cfa7f2ad508b970ef8c93af17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 067/137] fix: m6809: STY stores Y and STS stores S

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 856102b..75a2c52 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2269,9 +2269,9 @@ cl_m6809::inst_page1(t_mem code)
       break;
     case 0xf: // STY, STS
       if (code & 0x40)
-	inst_st16(code, reg.Y, ea);
-      else
 	inst_st16(code, reg.S, ea);
+      else
+	inst_st16(code, reg.Y, ea);
       break;
     }
   
-- 
2.43.0


From 08bac639a71c4a8a82b7220f028b677226d736aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 068/137] fix: m6809: SWI2 and SWI3 are valid instructions

They were executed and then reported as invalid, which stopped the simulation.
---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 75a2c52..9d537d1 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2178,6 +2178,7 @@ cl_m6809::inst_page1(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code & 0x80) == 0)
     return resINV_INST;
@@ -2297,6 +2298,7 @@ cl_m6809::inst_page2(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code!=0x83)&&(code!=0x8c)&&
       (code!=0x93)&&(code!=0x9c)&&
-- 
2.43.0


From ca0f806677d7685710de0dde091d5331e178d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 069/137] fix: m6809: EXG with PC does not crash the simulator

---
 src/sims/m6809.src/m6809.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 9d537d1..71ccb7c 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1424,9 +1424,17 @@ cl_m6809::inst_10(t_mem code)
 	    u16_t *R1= reg16_ptr[r1&7];
 	    u16_t *R2= reg16_ptr[r2&7];
 	    u16_t t;
+	    u16_t t2;
 	    t= (R1)?*R1:PC;
-	    *R1= (R2)?*R2:PC;
-	    *R2= t;
+	    t2= (R2)?*R2:PC;
+	    if (R1)
+	      *R1= t2;
+	    else
+	      PC= t2;
+	    if (R2)
+	      *R2= t;
+	    else
+	      PC= t;
 	  }
 	else
 	  {
-- 
2.43.0


From 4d4742a216d521fc89d0fa8af7eef7e194f45bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:16 +0000
Subject: [PATCH 070/137] fix: m6809: FIRQ stacks the condition codes

RTI of a fast interrupt pulled a CC that had not been pushed.
---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 71ccb7c..704f97c 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -956,9 +956,9 @@ cl_m6809::push_regs(bool do_cc)
       rom->write(--reg.S, B);
       rom->write(--reg.S, A);
       tick(9);
-      if (do_cc)
-	rom->write(--reg.S, reg.CC), tick(1);
     }
+  if (do_cc)
+    rom->write(--reg.S, reg.CC), tick(1);
 }
 
 void
-- 
2.43.0


From 68f17b31c19b774d1d5463141d09c38bdaacc942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 071/137] fix: m6809: CLR sets the Z flag

SET_Z sets the flag if its argument, a result, is zero.
---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 704f97c..4915e90 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2040,7 +2040,7 @@ cl_m6809::inst_clr(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
     rom->write(ea, 0), vc.wr++, tick(1);
   
   SET_O(0);
-  SET_Z(1);
+  SET_Z(0);
   SET_S(0);
   SET_C(0);
 
-- 
2.43.0


From 1ab6febae2eab7986bbbf2ee501e6f04afbc7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 072/137] fix: mos6502: pointer at address 0xffff takes its
 high byte from address 0

---
 src/sims/mos6502.src/mos6502.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index fa615b8..138fbb7 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -487,7 +487,7 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   l= m->read(start_addr);
-  h= m->read(start_addr+1);
+  h= m->read((start_addr+1) & 0xffff);
   return h*256+l;
 }
 
-- 
2.43.0


From 94112fbcca778ac4ef69e5c275afa60aaaae1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 073/137] fix: mos6502: NOP takes 2 cycles

---
 src/sims/mos6502.src/inst.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/mos6502.src/inst.cc b/src/sims/mos6502.src/inst.cc
index 677740d..321608c 100644
--- a/src/sims/mos6502.src/inst.cc
+++ b/src/sims/mos6502.src/inst.cc
@@ -31,6 +31,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 int
 cl_mos6502::NOP(t_mem code)
 {
+  tick(1);
   return resGO;
 }
 
-- 
2.43.0


From 3636fbdef0619440f8a51bcd01c79dce4982d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 074/137] fix: mos6502: JSR takes 6 cycles

---
 src/sims/mos6502.src/ibranch.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 28f38c0..8d76aea 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -61,6 +61,7 @@ cl_mos6502::JSR(t_mem code)
   op->init();
   stack_write(op);
   PC= a;
+  tick(3);
   return resGO;
 }
 
-- 
2.43.0


From fd9c5969dcf7c810f03125b74691cc9b2c81cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 075/137] fix: mos6502: indexed stores and read-modify-writes
 take a fixed number of cycles

---
 src/sims/mos6502.src/mos6502.cc  | 12 ++++++------
 src/sims/mos6502.src/mos6502cl.h | 18 +++++++++---------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 138fbb7..433b34d 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -551,27 +551,27 @@ cl_mos6502::abs(void)
 }
 
 class cl_cell8 &
-cl_mos6502::absX(void)
+cl_mos6502::absX(bool fixed)
 {
   u16_t a1= i16();
   u16_t a2= a1 + rX;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd++;
   tick(3);
-  if ((a1&0xff00) != (a2&0xff00))
+  if (fixed || ((a1&0xff00) != (a2&0xff00)))
     tick(1);
   return *c;
 }
 
 class cl_cell8 &
-cl_mos6502::absY(void)
+cl_mos6502::absY(bool fixed)
 {
   u16_t a1= i16();
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd++;
   tick(3);
-  if ((a1&0xff00) != (a2&0xff00))
+  if (fixed || ((a1&0xff00) != (a2&0xff00)))
     tick(1);
   return *c;
 }
@@ -609,14 +609,14 @@ cl_mos6502::indX(void)
 }
 
 class cl_cell8 &
-cl_mos6502::indY(void)
+cl_mos6502::indY(bool fixed)
 {
   u16_t a1= read_zpg_addr(fetch());
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd+= 3;
   tick(4);
-  if ((a1&0xff00) != (a2&0xff00))
+  if (fixed || ((a1&0xff00) != (a2&0xff00)))
     tick(1);
   return *c;
 }
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 4ebb67a..a7307dd 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -160,30 +160,30 @@ public:
   virtual class cl_cell8 &zpgX(void);
   virtual class cl_cell8 &zpgY(void);
   virtual class cl_cell8 &abs(void);
-  virtual class cl_cell8 &absX(void);
-  virtual class cl_cell8 &absY(void);
+  virtual class cl_cell8 &absX(bool fixed= false);
+  virtual class cl_cell8 &absY(bool fixed= false);
   virtual class cl_cell8 &ind(void);
   virtual class cl_cell8 &zind(void);
   virtual class cl_cell8 &indX(void);
-  virtual class cl_cell8 &indY(void);
+  virtual class cl_cell8 &indY(bool fixed= false);
   // write operands
   virtual class cl_cell8 &dstzpg(void) { vc.wr++; return zpg(); }
   virtual class cl_cell8 &dstzpgX(void) { vc.wr++; return zpgX(); }
   virtual class cl_cell8 &dstzpgY(void) { vc.wr++; return zpgY(); }
   virtual class cl_cell8 &dstabs(void) { vc.wr++; return abs(); }
-  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return absX(); }
-  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return absY(); }
+  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return absX(true); }
+  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return absY(true); }
   virtual class cl_cell8 &dstind(void) { vc.wr++; return ind(); }
   virtual class cl_cell8 &dstzind(void) { vc.wr++; return zind(); }
   virtual class cl_cell8 &dstindX(void) { vc.wr++; return indX(); }
-  virtual class cl_cell8 &dstindY(void) { vc.wr++; return indY(); }
+  virtual class cl_cell8 &dstindY(void) { vc.wr++; return indY(true); }
   // read-modify-write operands
   virtual class cl_cell8 &rmwzpg(void) { vc.rd++;vc.wr++;tick(2); return zpg(); }
   virtual class cl_cell8 &rmwzpgX(void) { vc.rd++;vc.wr++;tick(2); return zpgX(); }
   virtual class cl_cell8 &rmwzpgY(void) { vc.rd++;vc.wr++;tick(2); return zpgY(); }
   virtual class cl_cell8 &rmwabs(void) { vc.rd++;vc.wr++;tick(2); return abs(); }
-  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(3); return absX(); }
-  virtual class cl_cell8 &rmwabsY(void) { vc.rd++;vc.wr++;tick(3); return absY(); }
+  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(2); return absX(true); }
+  virtual class cl_cell8 &rmwabsY(void) { vc.rd++;vc.wr++;tick(2); return absY(true); }
   virtual class cl_cell8 &rmwind(void) { vc.rd++;vc.wr++;tick(1); return ind(); }
   virtual class cl_cell8 &rmwzind(void) { vc.rd++;vc.wr++;tick(1); return zind(); }
   virtual class cl_cell8 &rmwindX(void) { vc.rd++;vc.wr++;tick(1); return indX(); }
@@ -264,7 +264,7 @@ public:
   virtual int STAzx(t_mem code) { return sta(dstzpgX()); }
   virtual int STAay(t_mem code) { return sta(dstabsY()); }
   virtual int STAa (t_mem code) { return sta(dstabs()); }
-  virtual int STAax(t_mem code) { tick(1); return sta(dstabsX()); }
+  virtual int STAax(t_mem code) { return sta(dstabsX()); }
 
   virtual int lda(class cl_cell8 &op);
   virtual int LDAix(t_mem code) { return lda(indX()); }
-- 
2.43.0


From 017e724918bdfe27381c124701f35615c6bd8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 076/137] fix: mos65c02: cycle counts of BIT #imm, JMP (abs),
 TSB, TRB, abs,X shifts and decimal arithmetic

---
 src/sims/mos6502.src/mos65c02.cc  |  3 +--
 src/sims/mos6502.src/mos65c02cl.h | 10 ++++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index d69a9c8..21ac4e5 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -131,6 +131,7 @@ cl_mos65c02::BIT8(t_mem code)
   u8_t f= rF & ~(flagZ);
   if (!(rA & v)) f|= flagZ;
   cF.W(f);
+  tick(1);
   return resGO;
 }
 
@@ -178,7 +179,6 @@ cl_mos65c02::tsb(class cl_cell8 &op)
   if (!r1) f|= flagZ;
   op.W(r2);
   cF.W(f);
-  tick(2);
   return resGO;
 }
 
@@ -191,7 +191,6 @@ cl_mos65c02::trb(class cl_cell8 &op)
   if (!r1) f|= flagZ;
   op.W(r2);
   cF.W(f);
-  tick(2);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/mos65c02cl.h b/src/sims/mos6502.src/mos65c02cl.h
index 0bc4a98..f820579 100644
--- a/src/sims/mos6502.src/mos65c02cl.h
+++ b/src/sims/mos6502.src/mos65c02cl.h
@@ -48,6 +48,16 @@ class cl_mos65c02: public cl_mos6502
   virtual int tsb(class cl_cell8 &op);
   virtual int trb(class cl_cell8 &op);
   virtual int stz(class cl_cell8 &op);
+
+  // One more cycle in decimal mode
+  virtual int adc(class cl_cell8 &op) { if (rF & flagD) tick(1); return cl_mos6502::adc(op); }
+  virtual int sbc(class cl_cell8 &op) { if (rF & flagD) tick(1); return cl_mos6502::sbc(op); }
+  // No fixed cycle on indexed shifts
+  virtual int ASLax(t_mem code) { vc.wr++;tick(2); return asl(absX()); }
+  virtual int LSRax(t_mem code) { vc.wr++;tick(2); return lsr(absX()); }
+  virtual int ROLax(t_mem code) { vc.wr++;tick(2); return rol(absX()); }
+  virtual int RORax(t_mem code) { vc.wr++;tick(2); return ror(absX()); }
+  virtual int JMPi(t_mem code) { tick(1); return cl_mos6502::JMPi(code); }
   
   // New insts in column 0
   virtual int BRA(t_mem code) { return branch(true); tick(1); }
-- 
2.43.0


From ea47f0577521c3932e045bb22ce8aaaf9fcd4a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:24 +0000
Subject: [PATCH 077/137] fix: i8085: cycle count of an instruction that
 overwrites itself

---
 src/sims/i8085.src/i8080.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 7d39cef..ab6569e 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -465,11 +465,11 @@ cl_i8080::exec_inst(void)
 {
   int res;
   u16_t *ttab= tick_tab();
+  u8_t code= rom->get(PC);
 
   tick_shift= 0;
   if ((res= exec_inst_tab(itab)) != resNOT_DONE)
     {
-      u8_t code= rom->read(instPC);
       u16_t t= ttab[code];
       t>>= tick_shift;
       t&= 0xff;
-- 
2.43.0


From 05380018cf4f12197d34b2976122008c67ee14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:24 +0000
Subject: [PATCH 078/137] fix: i8085: cycle counts of taken 8080 conditional
 jumps, XCHG and MOV A,H

---
 src/sims/i8085.src/glob.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 4ff1fb2..a866dc8 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -194,10 +194,10 @@ u16_t tick_tab_8080[256]= {
   /* 9_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* b_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
-  /* c_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* d_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* e_ */  0x0b05, 0x0a, 0x0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x05, 0x110b, 0x11, 0x07, 0x0b, 
-  /* f_ */  0x0b05, 0x0a, 0x0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
+  /* c_ */  0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
+  /* d_ */  0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
+  /* e_ */  0x0b05, 0x0a, 0x0a0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a0a, 0x04, 0x110b, 0x11, 0x07, 0x0b, 
+  /* f_ */  0x0b05, 0x0a, 0x0a0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
 };
 
 u16_t tick_tab_8085[256]= {
@@ -209,7 +209,7 @@ u16_t tick_tab_8085[256]= {
   /* 4_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 5_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 6_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
-  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x05,   0x04, 0x07, 0x04, 
+  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 8_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 9_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
-- 
2.43.0


From de76ef86c03f1fef32aab2509b67b7152abcb84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 079/137] fix: i8048: cycle counts of ANL A,#data, ENT0 CLK and
 MOV @Rr,A, length of ENT0 CLK and ANL BUS,#data

---
 src/sims/i8048.src/decode.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 7b12907..011d8e6 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -90,7 +90,7 @@ DEC( 4f, ORLR7		, "orl a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
+DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 2, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 1, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -168,7 +168,7 @@ DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
-DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 1, false, 2, (void*)"8---" ) //48
+DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 2, false, 2, (void*)"8---" ) //48
 DEC( 99, ANLP1I8	, "anl p1,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9a, ANLP2I8	, "anl p2,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9c, ANLDP4A	, "anl p4,a"	, ' ', 1, false, 2, (void*)"8421" )
@@ -176,8 +176,8 @@ DEC( 9d, ANLDP5A	, "anl p5,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9e, ANLDP6A	, "anl p6,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9f, ANLDP7A	, "anl p7,a"	, ' ', 1, false, 2, (void*)"8421" )
 
-DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 2, (void*)"8421" )
-DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 2, (void*)"8421" )
+DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 1, (void*)"8421" )
+DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 1, (void*)"8421" )
 // a2 undefined
 DEC( a3, MOVPAIA	, "movp a,@a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( a4, JMP5   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8421" )
-- 
2.43.0


From 910648229289730234a2e096053eb162c6d0c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 080/137] fix: avr: IJMP takes 2 cycles

---
 src/sims/avr.src/jump_inst.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index b539161..93a1808 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -44,6 +44,7 @@ cl_avr::ijmp(t_mem code)
   z= ram->get(ZH)*256 + ram->get(ZL);
   PC= rom->validate_address((PC & ~0xffff) | z);
   //FIXME: analyze
+  tick(1);
   return(resGO);
 }
 
-- 
2.43.0


From ee0287e09ea16d996f66335391666e153808f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 081/137] fix: avr: skipping a two word instruction takes one
 more cycle

---
 src/sims/avr.src/jump_inst.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 93a1808..8b59c5d 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -196,7 +196,7 @@ cl_avr::cpse_Rd_Rr(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
@@ -326,7 +326,7 @@ cl_avr::sbrc_Rr_b(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
@@ -359,7 +359,7 @@ cl_avr::sbrs_Rr_b(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
@@ -386,13 +386,13 @@ cl_avr::sbic_P_b(t_mem code)
   if (0 == (mask & ram->read(addr)))
     {
       int size= inst_length(PC);
+      tick(size);
       fetch();
       while (size > 1)
 	{
 	  fetch();
 	  size--;
 	}
-      tick(1);
     }
   return(resGO);
 }
@@ -416,13 +416,13 @@ cl_avr::sbis_P_b(t_mem code)
   if (mask & ram->read(addr))
     {
       int size= inst_length(PC);
+      tick(size);
       fetch();
       while (size > 1)
 	{
 	  fetch();
 	  size--;
 	}
-      tick(1);
     }
   return(resGO);
 }
-- 
2.43.0


From 6accea31b89dfc0211cba39d258b97d413294eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:33 +0000
Subject: [PATCH 082/137] fix: Z80 T states of BIT b,(HL), INC (HL), DEC (HL),
 OUT (C),E

---
 src/sims/z80.src/glob.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 35a8d3f..766535a 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -1318,7 +1318,7 @@ u16_t z80_ttab_00[256]= {
   /*0*/        4, 10,  7,  6,       4,   4,  7,  4,      4, 11,  7,  6,       4,  4,  7,  4,
     /*1*/T(13,8), 10,  7,  6,       4,   4,  7,  4,     12, 11,  7,  6,       4,  4,  7,  4,
     /*2*/T(12,7), 10, 16,  6,       4,   4,  7,  4,T(12,7), 11, 16,  6,       4,  4,  7,  4,
-    /*3*/T(12,7), 10, 13,  6,       7,   7, 10,  4,T(12,7), 11, 13,  6,       4,  4,  7,  4,
+    /*3*/T(12,7), 10, 13,  6,      11,  11, 10,  4,T(12,7), 11, 13,  6,       4,  4,  7,  4,
     /*4*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
     /*5*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
     /*6*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
@@ -1342,7 +1342,7 @@ u16_t z80_ttab_ed[256]= {
   /*2*/  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
   /*3*/  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
   /*4*/ 12, 12, 15, 20,  8, 14,  8,  9, 12, 12, 15, 20,  0, 14,  0,  9,
-  /*5*/ 12, 12, 15, 20,  0,  0,  8,  9, 12,  1, 15, 20,  0,  0,  8,  9,
+  /*5*/ 12, 12, 15, 20,  0,  0,  8,  9, 12, 12, 15, 20,  0,  0,  8,  9,
   /*6*/ 12, 12, 15, 20,  0,  0,  0, 18, 12, 12, 15, 20,  0,  0,  0, 18,
   /*7*/ 12, 12, 15, 20,  0,  0,  0,  0, 12, 12, 15, 20,  0,  0,  0,  0,
   /*     0   1   2   3   4   5   6   7   8   9   a   b   c   d   e   f */
@@ -1368,10 +1368,10 @@ u16_t z80_ttab_cb[256]= {
   /*1*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*2*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*3*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*4*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*5*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*6*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*7*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
+  /*4*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*5*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*6*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*7*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
   /*    0  1  2  3  4  5   6  7  8  9  a  b  c  d   e  f */
   /*8*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*9*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-- 
2.43.0


From 7a6218c24bddb863f40de37f23cdcd9b45f8cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 083/137] fix: Z80, GB80 instruction time is that of the
 instruction executed, not of what it stored over itself

---
 src/sims/z80.src/gb80.cc  | 15 ++++++---------
 src/sims/z80.src/gb80cl.h |  2 +-
 src/sims/z80.src/z80.cc   | 26 +++++++++++++++++---------
 src/sims/z80.src/z80cl.h  |  3 ++-
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5e112c3..ffdd0c3 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -456,6 +456,8 @@ cl_gb80::exec_inst(void)
     return(resBREAKPOINT);
   tick(1);
   inc_R();
+  // the instruction can overwrite itself
+  u16_t t= tstates(code);
   cond_true= false;
   
   switch (code)
@@ -694,7 +696,7 @@ cl_gb80::exec_inst(void)
   regs.raf.F&= 0xf0;
   regs.ralt_af.aF&= 0xf0;
   
-  tickt(code);
+  tickt(t);
   
   if (res >= 0)
     return res;
@@ -702,8 +704,8 @@ cl_gb80::exec_inst(void)
 }
 
 
-int
-cl_gb80::tickt(t_mem code)
+u16_t
+cl_gb80::tstates(t_mem code)
 {
   // special cases: dd, cb, ed, ddcb, fd, fdcb
   u16_t t= 0;
@@ -711,18 +713,13 @@ cl_gb80::tickt(t_mem code)
   switch (code)
     {
     case 0xcb:
-      c2= rom->read(instPC+1);
+      c2= rom->get((instPC+1)&0xffff);
       t= gb_ttab_cb[c2];
       break;
     default:
       t= gb_ttab_00[code];
       break;
     }
-  if (cond_true)
-    t>>= 8;
-  else
-    t&= 0xff;
-  tick(t-1);
   return t;
 }
 
diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index e859f24..e365f6f 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -76,7 +76,7 @@ public:
   virtual void print_regs(class cl_console_base *con);
 
   virtual int exec_inst(void);
-  virtual int tickt(t_mem code);
+  virtual u16_t tstates(t_mem code);
   virtual void xy(u8_t v) {}
 
   virtual const char *get_disasm_info(t_addr addr,
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 9d99ad6..3129686 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -650,6 +650,8 @@ cl_z80::exec_inst(void)
     return(resBREAKPOINT);
   tick(1);
   inc_R();
+  // the instruction can overwrite itself
+  u16_t t= tstates(code);
   iblock= false;
   cond_true= false;
   
@@ -831,15 +833,15 @@ cl_z80::exec_inst(void)
     case 0xff: res= (inst_rst(code)); break;
     }
 
-  tickt(code);
+  tickt(t);
   
   if (res >= 0)
     return res;
   return resINV_INST;
 }
 
-int
-cl_z80::tickt(t_mem code)
+u16_t
+cl_z80::tstates(t_mem code)
 {
   // special cases: dd, cb, ed, ddcb, fd, fdcb
   u16_t t= 0;
@@ -847,37 +849,43 @@ cl_z80::tickt(t_mem code)
   switch (code)
     {
     case 0xdd:
-      c2= rom->read(instPC+1);
+      c2= rom->get((instPC+1)&0xffff);
       if (c2 == 0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->get((instPC+3)&0xffff);
 	  t= ttab_ddcb[c4];
 	  break;
 	}
       t= ttab_dd[c2];
       break;
     case 0xfd:
-      c2= rom->read(instPC+1);
+      c2= rom->get((instPC+1)&0xffff);
       if (c2==0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->get((instPC+3)&0xffff);
 	  t= ttab_fdcb[c4];
 	  break;
 	}
       t= ttab_fd[c2];
       break;
     case 0xcb:
-      c2= rom->read(instPC+1);
+      c2= rom->get((instPC+1)&0xffff);
       t= ttab_cb[c2];
       break;
     case 0xed:
-      c2= rom->read(instPC+1);
+      c2= rom->get((instPC+1)&0xffff);
       t= ttab_ed[c2];
       break;
     default:
       t= ttab_00[code];
       break;
     }
+  return t;
+}
+
+int
+cl_z80::tickt(u16_t t)
+{
   if (cond_true)
     t>>= 8;
   else
diff --git a/src/sims/z80.src/z80cl.h b/src/sims/z80.src/z80cl.h
index 468801b..68daa99 100644
--- a/src/sims/z80.src/z80cl.h
+++ b/src/sims/z80.src/z80cl.h
@@ -85,7 +85,8 @@ public:
   virtual void print_regs(class cl_console_base *con);
 
   virtual int exec_inst(void);
-  virtual int tickt(t_mem code);
+  virtual u16_t tstates(t_mem code);
+  virtual int tickt(u16_t t);
   virtual void inc_R(void);
   virtual void xy(u8_t v);
   
-- 
2.43.0


From b00227073a38e724581b39136462fa45537a25c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:43 +0000
Subject: [PATCH 084/137] fix: GB80 word access at 0xFFFF wraps around to
 address 0

---
 src/sims/z80.src/gb80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index ffdd0c3..d54450b 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -239,7 +239,7 @@ void
 cl_gb80::store2(u16_t addr, u16_t val)
 {
   rom->write(addr, val);
-  rom->write(addr+1, val>>8);
+  rom->write((addr+1) & 0xffff, val>>8);
 }
 
 u8_t
@@ -252,7 +252,7 @@ u16_t
 cl_gb80::get2(u16_t addr)
 {
   u8_t l= rom->read(addr);
-  u8_t h= rom->read(addr+1);
+  u8_t h= rom->read((addr+1) & 0xffff);
   return (h<<8)|l;
 }
 
-- 
2.43.0


From d2cd41d7bbba7386741617500abc9d1eb7f4f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 085/137] fix: GB80 instruction times were counted twice

---
 src/sims/z80.src/gb80cl.h     |   5 -
 src/sims/z80.src/glob_gb80.cc |  10 +-
 src/sims/z80.src/inst_gb80.cc | 172 ----------------------------------
 3 files changed, 5 insertions(+), 182 deletions(-)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index e365f6f..799fbf7 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -95,11 +95,6 @@ public:
   /* instruction function that are add / modified from the Z80 versions */
   virtual int inst_cb(void);
 
-  virtual int inst_jr   (t_mem code);
-  virtual int inst_call (t_mem code);
-  virtual int inst_ret  (t_mem code);
-  virtual int inst_jp   (t_mem code);
-  virtual int inst_add  (t_mem code);
 
   virtual int inst_st_sp_abs(t_mem code);
   virtual int inst_stop0    (t_mem code);
diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c823420..f5dcba3 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -618,7 +618,7 @@ u16_t gb_ttab_00[256]= {
     /*0*/      4, 12,       8,  8,       4,   4,  8,  4,     20,  8,       8,  8,       4,  4,  8,  4,
     /*1*/      4, 12,       8,  8,       4,   4,  8,  4,     12,  8,       8,  8,       4,  4,  8,  4,
     /*2*/T(12,8), 12,       8,  8,       4,   4,  8,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
-    /*3*/T(12,8), 18,       8,  8,      12,  12, 12,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
+    /*3*/T(12,8), 12,       8,  8,      12,  12, 12,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
     /*4*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
     /*5*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
     /*6*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
@@ -641,10 +641,10 @@ u16_t gb_ttab_cb[256]= {
   /*1*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*2*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*3*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*4*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*5*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*6*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*7*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
+  /*4*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*5*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*6*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*7*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
   /*    0  1  2  3  4  5   6  7  8  9  a  b  c  d   e  f */
   /*8*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*9*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 928b81e..83d87b3 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -39,15 +39,10 @@ int cl_gb80::inst_cb(void) {
   t_mem       code;
   
   if ( (peek1( ) & 0xf8) != 0x30 ) {
-    // (hl) has to be rounded, but not for bit
-    if ((peek1( ) & 0x7) == 0x6)
-      if (peek1( ) < 0x50 || peek1( ) >= 0x80)
-        tick(1);
     return cl_z80::inst_cb( );
   }
   
   code = fetch1();
-  tick(7);
   
   /* perform SWAP instead of slia */
   switch(code) {
@@ -59,7 +54,6 @@ int cl_gb80::inst_cb(void) {
   case 0x35: result = regs.hl.l = swap_nibbles(regs.hl.l); break; /* l */
   case 0x36: /* SWAP (HL) */
     {
-      tick(8);
       result = swap_nibbles(get1(regs.HL));
       store1(regs.HL, result);
       vc.rd++;
@@ -74,164 +68,11 @@ int cl_gb80::inst_cb(void) {
   return(resGO);
 }
 
-int cl_gb80::inst_jr(t_mem code)
-{
-  /* fix timing for untaken jr */
-  switch(code) {
-    case 0x20: // JR NZ,dd
-      if ((regs.raf.F & BIT_Z)) {
-        tick(1);
-      }
-    break;
-    case 0x28: // JR Z,dd
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(1);
-      }
-    break;
-    case 0x30: // JR NC,dd
-      if ((regs.raf.F & BIT_C)) {
-        tick(1);
-      }
-    break;
-    case 0x38: // JR C,dd
-      if (!(regs.raf.F & BIT_C)) {
-        tick(1);
-      }
-    break;
-  }
-  
-  return cl_z80::inst_jr(code);
-}
-
-int cl_gb80::inst_call(t_mem code)
-{
-  /* fix timing for taken call */
-  switch(code)
-    {
-    case 0xC4: // CALL NZ,nnnn
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(5);
-      }
-      break;
-    case 0xCC: // CALL Z,nnnn
-      if (regs.raf.F & BIT_Z) {
-        tick(5);
-      }
-      break;
-    case 0xD4: // CALL NC,nnnn
-      if (!(regs.raf.F & BIT_C)) {
-        tick(5);
-      }
-      break;
-    case 0xDC: // CALL C,nnnn
-      if (regs.raf.F & BIT_C) {
-        tick(5);
-      }
-      break;
-    }
-  
-  return cl_z80::inst_call(code);
-}
-
-int cl_gb80::inst_ret(t_mem code)
-{
-  /* fix timing for taken ret */
-  switch(code)
-    {
-    case 0xC0: // RET NZ
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(6);
-      }
-      break;
-    case 0xC8: // RET Z
-      if ((regs.raf.F & BIT_Z)) {
-        tick(6);
-      }
-      break;
-    case 0xD0: // RET NC
-      if (!(regs.raf.F & BIT_C)) {
-        tick(6);
-      }
-      break;
-    case 0xD8: // RET C
-      if ((regs.raf.F & BIT_C)) {
-        tick(6);
-      }
-      break;
-    }
-  
-  return cl_z80::inst_ret(code);
-}
-
-int cl_gb80::inst_jp(t_mem code)
-{
-  /* fix timing for taken ret */
-  switch (code)
-    {
-    case 0xC2: // JP NZ,nnnn
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(4);
-      }
-      break;
-      
-    case 0xCA: // JP Z,nnnn
-      if (regs.raf.F & BIT_Z) {
-        tick(4);
-      }
-      break;
-      
-    case 0xD2: // JP NC,nnnn
-      if (!(regs.raf.F & BIT_C)) {
-        tick(4);
-      }
-      break;
-      
-    case 0xDA: // JP C,nnnn
-      if (regs.raf.F & BIT_C) {
-        tick(4);
-      }
-      break;
-    }
-  
-  return cl_z80::inst_jp(code);
-}
-
-int cl_gb80::inst_add(t_mem code)
-{
-  /* 16bit addition is faster */
-  switch(code)
-    {
-    case 0x09: // ADD HL,BC
-      add_HL_Word(regs.BC);
-      tick(7);
-      break;
-    case 0x19: // ADD HL,DE
-      add_HL_Word(regs.DE);
-      tick(7);
-      break;
-    case 0x29: // ADD HL,HL
-      add_HL_Word(regs.HL);
-      tick(7);
-      break;
-    case 0x39: // ADD HL,SP
-      add_HL_Word(regs.SP);
-      tick(7);
-      break;
-      
-    default:
-      return(cl_z80::inst_add(code));
-      break;
-    }
-
-  return(resGO);
-}
-
 int cl_gb80::inst_st_sp_abs(t_mem code) {
   if (code == 0x08) {
     u16_t addr = fetch2( );
     store2( addr, regs.SP );
     vc.wr+= 2;
-    tick(19);
     return(resGO);
   }
   
@@ -240,7 +81,6 @@ int cl_gb80::inst_st_sp_abs(t_mem code) {
 
 int cl_gb80::inst_stop0    (t_mem code) {
   // TODO: change to wait for a signal for simulated hardware
-  tick(3);//can be 7 sometimes
   return resHALT;
 }
 
@@ -249,13 +89,11 @@ int cl_gb80::inst_ldi   (t_mem code) {
     store1( regs.HL, regs.raf.A );
     regs.HL ++;
     vc.wr++;
-    tick(7);
     return resGO;
   } else if (code == 0x2A) {
     regs.raf.A = get1( regs.HL );
     regs.HL ++;
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -267,13 +105,11 @@ int cl_gb80::inst_ldd   (t_mem code) {
     store1( regs.HL, regs.raf.A );
     regs.HL --;
     vc.wr++;
-    tick(7);
     return resGO;
   } else if (code == 0x3A) {
     regs.raf.A = get1( regs.HL );
     regs.HL --;
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -287,18 +123,15 @@ int cl_gb80::inst_ldh   (t_mem code) {
     addr += regs.bc.l;
   } else {
     addr += fetch1( );
-    tick(4);
   }
   
   if ((code & 0xFD) == 0xE0) {
     store1( addr, regs.raf.A );
     vc.wr++;
-    tick(7);
     return resGO;
   } else if ((code & 0xFD) == 0xF0) {
     regs.raf.A = get1( addr );
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -308,7 +141,6 @@ int cl_gb80::inst_ldh   (t_mem code) {
 int cl_gb80::inst_reti  (t_mem code) {
   /* enable interrupts */
   cl_z80::inst_ei(0xFB);
-  tick(12);
   
   /* pop2(PC); */
   PC=get2(regs.SP);
@@ -331,7 +163,6 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   
   regs.SP = (regs.SP + d) & 0xffff;
 
-  tick(15);
   return(resGO);
 }
 
@@ -340,12 +171,10 @@ int cl_gb80::inst_ld16  (t_mem code) {
   if (code == 0xEA) {
     store1( addr, regs.raf.A );
     vc.wr++;
-    tick(15);
     return resGO;
   } else if (code == 0xFA) {
     regs.raf.A = get1( addr );
     vc.rd++;
-    tick(15);
     return resGO;
   }
   
@@ -364,7 +193,6 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-  tick(11);
   return resGO;
 }
 
-- 
2.43.0


From 2650329386cb9a0f214e6422fcbd26f0a8681553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 086/137] fix: GB80 ADD SP,d and LD HL,SP+d set H and C from
 the low byte

---
 src/sims/z80.src/inst_gb80.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 83d87b3..cac5df2 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -156,9 +156,9 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   d |= (d>>7)*0xFF00;
   
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xFF) + (d & 0xFF) > 0xFF)
     regs.raf.F |= BIT_C;
   
   regs.SP = (regs.SP + d) & 0xffff;
@@ -187,9 +187,9 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
   d |= (d>>7)*0xFF00;
 
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xFF) + (d & 0xFF) > 0xFF)
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-- 
2.43.0


From 9122a505dff82115110e86b2b7027ddf90fd79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 087/137] fix: GB80 DAA adjusts by H and C only after a
 subtraction and clears H

---
 src/sims/z80.src/gb80cl.h     |  2 +-
 src/sims/z80.src/inst_gb80.cc | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index 799fbf7..c0bc1b9 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -94,7 +94,7 @@ public:
   // see #include "instcl.h" for Z80 versions
   /* instruction function that are add / modified from the Z80 versions */
   virtual int inst_cb(void);
-
+  virtual int inst_daa(t_mem code);
 
   virtual int inst_st_sp_abs(t_mem code);
   virtual int inst_stop0    (t_mem code);
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index cac5df2..847b8ad 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -68,6 +68,27 @@ int cl_gb80::inst_cb(void) {
   return(resGO);
 }
 
+int cl_gb80::inst_daa(t_mem code)
+{
+  u8_t incr= 0, f= regs.raf.F & BIT_N;
+
+  if ((regs.raf.F & BIT_A) || (!f && ((regs.raf.A & 0x0f) > 9)))
+    incr= 6;
+  if ((regs.raf.F & BIT_C) || (!f && (regs.raf.A > 0x99)))
+    {
+      incr|= 0x60;
+      f|= BIT_C;
+    }
+  if (f & BIT_N)
+    regs.raf.A-= incr;
+  else
+    regs.raf.A+= incr;
+  if (!regs.raf.A)
+    f|= BIT_Z;
+  regs.raf.F= f;
+  return resGO;
+}
+
 int cl_gb80::inst_st_sp_abs(t_mem code) {
   if (code == 0x08) {
     u16_t addr = fetch2( );
-- 
2.43.0


From 160b7ab2c8faecc946680e05e7b8ee4a1a3cdd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 088/137] fix: GB80 CCF clears H

---
 src/sims/z80.src/gb80.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index d54450b..b89a71d 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -545,7 +545,7 @@ cl_gb80::exec_inst(void)
     case 0x3d: res= (inst_dec(code)); break;
     case 0x3c: res= (inst_inc(code)); break;
     case 0x3e: res= (inst_ld(code)); break;
-    case 0x3f: res= (inst_ccf(code)); break;
+    case 0x3f: res= (inst_ccf(code)); regs.raf.F&= ~BIT_A; break;
 
     case 0x40: case 0x41: case 0x42: case 0x43: case 0x44: case 0x45: case 0x47:
     case 0x48: case 0x49: case 0x4a: case 0x4b: case 0x4c: case 0x4d: case 0x4f:
-- 
2.43.0


From efd491954a677815bf450c2fef8a02add5c2d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:26 +0000
Subject: [PATCH 089/137] fix: GB80 conditional jump takes longer when the
 condition is met

---
 src/sims/z80.src/gb80cl.h     |  1 +
 src/sims/z80.src/inst_gb80.cc | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index c0bc1b9..7dbd6b5 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -95,6 +95,7 @@ public:
   /* instruction function that are add / modified from the Z80 versions */
   virtual int inst_cb(void);
   virtual int inst_daa(t_mem code);
+  virtual int inst_jp(t_mem code);
 
   virtual int inst_st_sp_abs(t_mem code);
   virtual int inst_stop0    (t_mem code);
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 847b8ad..1c91ed8 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -89,6 +89,18 @@ int cl_gb80::inst_daa(t_mem code)
   return resGO;
 }
 
+int cl_gb80::inst_jp(t_mem code)
+{
+  switch (code)
+    {
+    case 0xC2: cond_true= !(regs.raf.F & BIT_Z); break;
+    case 0xCA: cond_true= (regs.raf.F & BIT_Z); break;
+    case 0xD2: cond_true= !(regs.raf.F & BIT_C); break;
+    case 0xDA: cond_true= (regs.raf.F & BIT_C); break;
+    }
+  return cl_z80::inst_jp(code);
+}
+
 int cl_gb80::inst_st_sp_abs(t_mem code) {
   if (code == 0x08) {
     u16_t addr = fetch2( );
-- 
2.43.0


From e3318fe57f25e02a103ff51c5f91402306137420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 090/137] fix: MCS-51 counters 0 and 1 count falling edges of
 their pins

---
 src/sims/s51.src/timer0.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 1ea1212..873df61 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -395,8 +395,8 @@ cl_timer0::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       t_mem p3n= ep->new_pins & ep->new_value;
       t_mem p3o= ep->pins & ep->prev_value;
-      if ((p3n & mask_T) &&
-	  !(p3o & mask_T))
+      if (!(p3n & mask_T) &&
+	  (p3o & mask_T))
 	T_edge++;
       INT= p3n & mask_INT;
       //printf("timer%d p%dchanged (%02x,%02x->%02x,%02x) INT=%d(%02x) edge=%d(%02x)\n",id,where->id,ep->prev_value,ep->pins,ep->new_value,ep->new_pins,INT,mask_INT,T_edge,mask_T);
-- 
2.43.0


From 7146fead81f6cc45aa51c4ed7fec07c0ab209c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 091/137] fix: MCS-51 timer 2 capture and reload modes count
 every cycle or edge, not once per instruction

---
 src/sims/s51.src/timer2.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index ef4a20e..3ed36cd 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -224,10 +224,13 @@ cl_timer2::do_t2_capture(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
-	cell_tcon->set(cell_tcon->get() | bmTF2);
+      if (!cell_tl->set(cell_tl->get() + 1))
+	{
+	  if (!cell_th->set(cell_th->get() + 1))
+	    cell_tcon->set(cell_tcon->get() | bmTF2);
+	}
     }
 }
 
@@ -253,13 +256,16 @@ cl_timer2::do_t2_reload(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
+      if (!cell_tl->set(cell_tl->get() + 1))
 	{
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
-	  cell_th->set(cell_rcap2h->get());
-	  cell_tl->set(cell_rcap2l->get());
+	  if (!cell_th->set(cell_th->get() + 1))
+	    {
+	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      cell_th->set(cell_rcap2h->get());
+	      cell_tl->set(cell_rcap2l->get());
+	    }
 	}
     }
 }
-- 
2.43.0


From 80945b732ea8a771df2b387b1b593b50bcbb3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 092/137] fix: MCS-51 timer 2 overflow in up/down mode toggles
 EXF2, not a pin of P1

---
 src/sims/s51.src/timer2.cc | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 3ed36cd..7ae51a4 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -273,8 +273,6 @@ cl_timer2::do_t2_reload(int cycles)
 void
 cl_timer2::do_t2_down(int cycles)
 {
-  bool toggle= false;
-
   if (!TR)
     return;
 
@@ -292,7 +290,7 @@ cl_timer2::do_t2_down(int cycles)
 		cell_tcon->set(cell_tcon->get() | mask_TF);
 		cell_th->set(cell_rcap2h->get());
 		cell_tl->set(cell_rcap2l->get());
-		toggle= true;
+		cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 	      }
 	  }
     }
@@ -312,17 +310,10 @@ cl_timer2::do_t2_down(int cycles)
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
 	      cell_tl->set(0xff);
-	      toggle= true;
+	      cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 	    }
 	}
     }
-  if (toggle &&
-      sfr)
-    {
-      class cl_memory_cell *p1= sfr->get_cell(P1);
-      if (p1)
-	p1->set(p1->get() ^ bmEXF2);
-    }
 }
 
 void
-- 
2.43.0


From 26dab9c27e6c5ed66298bb5b02bfc785949dbaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 093/137] fix: MCS-51 timer 2 counting down underflows when it
 equals RCAP2, also when that is 0

---
 src/sims/s51.src/timer2.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 7ae51a4..689888c 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -299,19 +299,16 @@ cl_timer2::do_t2_down(int cycles)
        // DOWN
       while (cycles--)
 	{
-	  t_mem l, h;
-	  if ((l= cell_tl->set(cell_tl->get() - 1)) == 0xff)
-	    h= cell_th->set(cell_th->get() - 1);
-	  else
-	    h= cell_th->get();
-	  if ((u16_t)(h*256+l) <
-	      (u16_t)(cell_rcap2h->get()*256+cell_rcap2l->get()))
+	  if ((cell_tl->get() == cell_rcap2l->get()) &&
+	      (cell_th->get() == cell_rcap2h->get()))
 	    {
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
 	      cell_tl->set(0xff);
 	      cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 	    }
+	  else if (cell_tl->set(cell_tl->get() - 1) == 0xff)
+	    cell_th->set(cell_th->get() - 1);
 	}
     }
 }
-- 
2.43.0


From 4996d08795ae79867c248b3ef2b2152207405c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:23 +0000
Subject: [PATCH 094/137] fix: MCS-51 timer 2 mode follows T2CON and T2MOD in
 whatever order they are written

---
 src/sims/s51.src/timer2.cc  | 51 ++++++++++++++++++++-----------------
 src/sims/s51.src/timer2cl.h |  2 ++
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 689888c..f8e9b49 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -36,6 +36,9 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
 {
   features= afeatures;
   exf2it= 0;
+  RCLK= TCLK= CP_RL2= EXEN2= 0;
+  bit_dcen= bit_t2oe= bit_t2ex= false;
+  t2ex_edge= 0;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
@@ -97,8 +100,6 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       else
 	n&= ~m;
     }
-  if (exf2it)
-    exf2it->activate();
   if ((cell == cell_tcon) ||
       b)
     {
@@ -108,33 +109,14 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       TCLK= n & mask_TCLK;
       CP_RL2= n & mask_CP_RL2;
       EXEN2 = n & bmEXEN2;
-      if (!(RCLK || TCLK) &&
-	  !CP_RL2)
-	mode= T2MODE_RELOAD;
-      else if (!(RCLK || TCLK) &&
-	       CP_RL2)
-	mode= T2MODE_CAPTURE;
-      else if (RCLK || TCLK)
-	mode= T2MODE_BAUDRATE;
-      else
-	mode= T2MODE_OFF;
+      select_mode();
       inform_partners(EV_T2_MODE_CHANGED, &n);
     }
   else if (cell == cell_t2mod)
     {
       bit_dcen= (*val & bmDCEN) != 0;
       bit_t2oe= (*val & bmT2OE) != 0;
-      if ((features & t2_down) &&
-	  bit_dcen &&
-	  mode == T2MODE_RELOAD)
-	{
-	  mode= T2MODE_DOWN;
-	  if (exf2it)
-	    exf2it->deactivate();
-	}
-      if ((features & t2_clock_out) &&
-          bit_t2oe)
-        mode= T2MODE_CLKOUT;
+      select_mode();
     }
   if ((mode != oldmode) ||
       (TR && !oldtr) ||
@@ -142,6 +124,29 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
     T_edge= t2ex_edge= 0;
 }
 
+// the mode follows T2CON and T2MOD, in whatever order they are written
+void
+cl_timer2::select_mode(void)
+{
+  if ((features & t2_clock_out) && bit_t2oe)
+    mode= T2MODE_CLKOUT;
+  else if (RCLK || TCLK)
+    mode= T2MODE_BAUDRATE;
+  else if (CP_RL2)
+    mode= T2MODE_CAPTURE;
+  else if ((features & t2_down) && bit_dcen)
+    mode= T2MODE_DOWN;
+  else
+    mode= T2MODE_RELOAD;
+  if (exf2it)
+    {
+      if (mode == T2MODE_DOWN)
+	exf2it->deactivate();
+      else
+	exf2it->activate();
+    }
+}
+
 int
 cl_timer2::tick(int cycles)
 { 
diff --git a/src/sims/s51.src/timer2cl.h b/src/sims/s51.src/timer2cl.h
index 2cc9cc1..bba9f03 100644
--- a/src/sims/s51.src/timer2cl.h
+++ b/src/sims/s51.src/timer2cl.h
@@ -75,6 +75,8 @@ public:
 
   //virtual void mem_cell_changed(class cl_mem *mem, t_addr addr);
 
+  virtual void select_mode(void);
+
   virtual int  tick(int cycles);
   virtual int  do_t2_baud(int cycles);
   virtual void do_t2_capture(int cycles);
-- 
2.43.0


From f4b779600d90469f7b2e61a7b1e9649dda2ae77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 095/137] fix: MCS-51 counters do not count edges seen while
 gated off

---
 src/sims/s51.src/timer0.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 873df61..f5a096c 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -226,7 +226,10 @@ cl_timer0::do_mode0(int cycles)
   if (GATE)
     {
       if ((/*p3 & mask_*/INT) == 0)
-	return(0);
+	{
+	  T_edge= 0;
+	  return(0);
+	}
     }
 
   if (C_T)
@@ -266,7 +269,10 @@ cl_timer0::do_mode1(int cycles)
   if (GATE)
     {
       if ((/*p3 & mask_*/INT) == 0)
-	return(0);
+	{
+	  T_edge= 0;
+	  return(0);
+	}
     }
 
   if (C_T)
@@ -305,7 +311,10 @@ cl_timer0::do_mode2(int cycles)
   if (GATE)
     {
       if ((/*p3 & mask_*/INT) == 0)
-	return(0);
+	{
+	  T_edge= 0;
+	  return(0);
+	}
     }
 
   if (C_T)
@@ -346,7 +355,10 @@ cl_timer0::do_mode3(int cycles)
   if (GATE)
     {
       if ((/*p3 & mask_*/INT) == 0)
-	goto do_th;
+	{
+	  T_edge= 0;
+	  goto do_th;
+	}
     }
 
   if (C_T)
-- 
2.43.0


From b1a351cd91afdd9e8cd29e11b27a9dea2d739694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:55 +0000
Subject: [PATCH 096/137] fix: MCS-51 timer 2 ignores edges on T2 and T2EX seen
 before C/T2 and EXEN2 are set

---
 src/sims/s51.src/timer2.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index f8e9b49..65646d8 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -86,7 +86,7 @@ void
 cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
 {
   int oldmode= mode;
-  bool oldtr= TR;
+  bool oldtr= TR, oldct= C_T, oldex= EXEN2;
   t_addr ba;
   bool b= bas->is_owned(cell, &ba);
   t_mem n= *val;
@@ -122,6 +122,11 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       (TR && !oldtr) ||
       (!TR && oldtr))
     T_edge= t2ex_edge= 0;
+  // edges before the function is selected do not count
+  if (C_T && !oldct)
+    T_edge= 0;
+  if (EXEN2 && !oldex)
+    t2ex_edge= 0;
 }
 
 // the mode follows T2CON and T2MOD, in whatever order they are written
-- 
2.43.0


From c2e87819e72eccb4ea875ebc36be4f6f402cb831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:47 +0000
Subject: [PATCH 097/137] fix: MCS-51 timer 2 knows its TCLK bit

---
 src/sims/s51.src/timer2.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 65646d8..ca530fa 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -41,6 +41,7 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
   t2ex_edge= 0;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
+  mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
   make_partner(HW_UART, 0);
   sfr= uc->address_space(MEM_SFR_ID);
-- 
2.43.0


From 7e13184564109bf9f0ae4568393c233f3d974638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 098/137] fix: M6800 loads and stores clear Z when the value is
 not zero and keep C

---
 src/core/motorola.src/imove68.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index 8d01847..e4f4bb8 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -40,7 +40,7 @@ cl_m6800::clr(class cl_memory_cell &dest)
 int
 cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -51,7 +51,7 @@ cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -62,7 +62,7 @@ cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
@@ -73,7 +73,7 @@ cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 int
 cl_m6800::stsx(t_addr a, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
   rom->write(a+1, op&0xff);
   vc.wr+= 2;
-- 
2.43.0


From 11ba9225754afa1ce60146c3b54a94a7a42f8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 099/137] fix: M6800 ADC takes the carry into the half carry

---
 src/core/motorola.src/ialu68.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index 5875a64..a14e409 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -85,12 +85,12 @@ cl_m6800::add(class cl_memory_cell &dest, u8_t op, bool c)
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC|flagH);
   u8_t a= dest.read(), b= op, r;
   u8_t a7, b7, r7, na7, nb7, nr7;
-  r= a+b;
-  if (c && orgc) r++;
+  u8_t ci= (c && orgc)?1:0;
+  r= a+b+ci;
   a7= a&0x80; na7= a7^0x80;
   b7= b&0x80; nb7= b7^0x80;
   r7= r&0x80; nr7= r7^0x80;
-  if ((a&0xf) + (b&0xf) > 0xf) f|= flagH;
+  if ((a&0xf) + (b&0xf) + ci > 0xf) f|= flagH;
   if (r7) f|= flagN;
   if (!r) f|= flagZ;
   if ((a7&b7&nr7) | (na7&nb7&r7)) f|= flagV;
-- 
2.43.0


From 6ff33eb8032267c6ad4d1cc29e9877daa64db430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 100/137] fix: M6800 CPX sets V when 0x8000 is subtracted

---
 src/core/motorola.src/ialu68.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index a14e409..c7fda98 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -307,18 +307,12 @@ cl_m6800::Or(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::cpx(u16_t op)
 {
-  u32_t r;
-  u16_t x= rX, r2;
+  u16_t x= rX, r;
   u8_t f= rF & ~(flagN|flagZ|flagV);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
+  r= x-op;
   if (r&0x8000) f|= flagN;
-  if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
+  if (!r) f|= flagZ;
+  if (((x^op) & (x^r)) & 0x8000) f|= flagV;
   cCC.W(f);
   return resGO;
 }
-- 
2.43.0


From c54ea114aa7ba363aa27fc6dbb500d2aeda6124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 101/137] fix: MC6801 CPX sets C and V as the subtraction does

---
 src/core/motorola.src/m6801.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 076102a..2594031 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -167,18 +167,12 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
 int
 cl_m6801::cpx(u16_t op)
 {
-  u32_t r;
-  u16_t x= rX, r2;
+  u16_t x= rX, r;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
+  r= x-op;
   if (r&0x8000) f|= flagN;
-  if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
+  if (!r) f|= flagZ;
+  if (((x^op) & (x^r)) & 0x8000) f|= flagV;
   if (op > x)
     f|= flagC;
   cCC.W(f);
-- 
2.43.0


From ded9c7b1dfedafc9b57499c27f9ddc7a4d089275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 102/137] fix: MC6801 ADDD and SUBD set N, V and C

---
 src/core/motorola.src/m6801.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 2594031..229dc1e 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -128,7 +128,7 @@ cl_m6801::add16(class cl_memory_cell &dest, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a+b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -149,7 +149,7 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
   u8_t orgc= rF&flagC;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a-b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
-- 
2.43.0


From 5419254bfd7bd536118bcc0d71a60aa7eaf5ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 103/137] fix: M6800 and MC6801 16 bit operands wrap at the end
 of the memory

---
 src/core/motorola.src/imove68.cc | 2 +-
 src/core/motorola.src/m6800.cc   | 2 +-
 src/core/motorola.src/m6801.cc   | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index e4f4bb8..50fe070 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -75,7 +75,7 @@ cl_m6800::stsx(t_addr a, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
-  rom->write(a+1, op&0xff);
+  rom->write((a+1) & 0xffff, op&0xff);
   vc.wr+= 2;
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 629d145..d8147fe 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -464,7 +464,7 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->read(start_addr);
-  l= m->read(start_addr+1);
+  l= m->read((start_addr+1) & 0xffff);
   return h*256 + l;
 }
 
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 229dc1e..e17421a 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -204,7 +204,7 @@ cl_m6801::std(t_addr addr)
     rF|= flagZ;
   cCC.W(rF);
   rom->write(addr, rA);
-  rom->write(addr+1, rB);
+  rom->write((addr+1) & 0xffff, rB);
   vc.wr+= 2;
   return resGO;
 }
@@ -214,7 +214,7 @@ int
 cl_m6801::PSHX(t_mem code)
 {
   rom->write(rSP  , rIX);
-  rom->write(rSP-1, rIX>>8);
+  rom->write((rSP-1) & 0xffff, rIX>>8);
   cSP.W(rSP-2);
   vc.wr+= 2;
   return resGO;
@@ -224,7 +224,7 @@ cl_m6801::PSHX(t_mem code)
 int
 cl_m6801::PULX(t_mem code)
 {
-  rIX= rom->read(rSP+1) * 256 + rom->read(rSP+2);
+  rIX= rom->read((rSP+1) & 0xffff) * 256 + rom->read((rSP+2) & 0xffff);
   cIX.W(rIX);
   cSP.W(rSP+2);
   vc.rd+= 2;
-- 
2.43.0


From 26546c32cf328b9427c23c4ac0d9a134607dbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 104/137] fix: M6800 JMP indexed stays in 64K and uses the
 selected index register

---
 src/core/motorola.src/ibranch68.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index f502866..16404e2 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -64,9 +64,7 @@ cl_m6800::branch(t_addr a, bool cond)
 int
 cl_m6800::JMPi(t_mem code)
 {
-  t_addr a= fetch();
-  a+= rX;
-  PC= a;
+  PC= iaddr();
   return resGO;
 }
 
-- 
2.43.0


From d3baee9e62245e428ae7feb4452308249f250613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 105/137] fix: M6800 RTI keeps the unused bits of the condition
 code register set

---
 src/core/motorola.src/m6800.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index d8147fe..c01ecb6 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -546,7 +546,7 @@ void
 cl_m6800::pull_regs(bool inst_part)
 {
   u8_t l, h;
-  rCC= rom->read(++rSP);
+  cCC.W(rom->read(++rSP));
   rB= rom->read(++rSP);
   rA= rom->read(++rSP);
   h= rom->read(++rSP);
-- 
2.43.0


From 929956f5f50504b97ce2ff42f2916a2d79052a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 106/137] fix: M68HC11 CPY ind,X and CPX ind,Y have operation
 code 0xac

---
 src/core/motorola.src/m68hc11.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index b6b7e1f..26b5772 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -428,7 +428,7 @@ CL11::PAGE1A(t_mem code)
     case 0xa3: return cp16(cD, iop16()); break;
     case 0xb3: return cp16(cD, eop16()); break;
 
-    case 0xad: return cp16(cY, iop16()); break;
+    case 0xac: return cp16(cY, iop16()); break;
     case 0xee: return ldsx(cY, iop16()); break;
     case 0xef: return stsx(iaddr(), rY); break;
     }
@@ -444,7 +444,7 @@ CL11::PAGECD(t_mem code)
     {
     case 0xa3: return cp16(cD, iop16()); break;
 
-    case 0xad: return cp16(cX, iop16()); break;
+    case 0xac: return cp16(cX, iop16()); break;
     case 0xee: return ldsx(cX, iop16()); break;
     case 0xef: return stsx(iaddr(), rX); break;
     }
-- 
2.43.0


From df1c5cd01d05c2e287aaab77e450a14a37a40214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 107/137] fix: M68HC11 ABY adds B to Y

---
 src/core/motorola.src/m68hc11.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 26b5772..e700f60 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -715,7 +715,7 @@ CL11::ASLD(t_mem code)
 int
 CL11::ABxy(t_mem code)
 {
-  cI->W(rX+rB);
+  cI->W(cI->get()+rB);
   return resGO;
 }
 
-- 
2.43.0


From c20a21fcf2636b1f3421e977790354ef7bd8416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 108/137] fix: M68HC11 LDD, STD and BSET clear V

---
 src/core/motorola.src/m68hc11.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index e700f60..9b43cf0 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -479,7 +479,7 @@ CL11::STOP(t_mem code)
 int
 CL11::ldd16(u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   cD.W(op);
   if (!op) f|= flagZ;
   if (op & 0x8000) f|= flagN;
@@ -491,7 +491,7 @@ CL11::ldd16(u16_t op)
 int
 CL11::std16(t_addr addr)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(addr, rA);
   rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
@@ -598,7 +598,7 @@ CL11::bset(class cl_memory_cell &dest)
 {
   u8_t m= fetch();
   u8_t r= dest.R();
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   r|= m;
   dest.W(r);
   if (!r) f|= flagZ;
-- 
2.43.0


From 42569ec25d8ec64b8c295176b58dbd0c6d9411f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 109/137] fix: M68HC11 CPX sets C

---
 src/core/motorola.src/m68hc11cl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d0c1700..d8efeae 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -94,6 +94,7 @@ public:
   virtual int bset(class cl_memory_cell &dest);
   virtual int bclr(class cl_memory_cell &dest);
   virtual int cp16(class cl_cell16 &dest, u16_t op);
+  virtual int cpx(u16_t op) { return cp16(cX, op); }
   
   // BRANCH
   virtual int brset(u8_t op);
-- 
2.43.0


From 3f47d5ac53e023d6b18147bf936907eb00853db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 110/137] fix: M68HC11 IDIV and FDIV take the divisor before
 they store the quotient, and give 0xffff on overflow

---
 src/core/motorola.src/m68hc11.cc | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 9b43cf0..f6d14c0 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -641,18 +641,17 @@ CL11::cp16(class cl_cell16 &dest, u16_t op)
 int
 CL11::IDIV(t_mem code)
 {
-  u16_t q, r;
+  u16_t q, r, n= rD, d= rX;
   u8_t f= rF & ~(flagZ|flagV|flagC);
-  if (rX == 0)
+  if (d == 0)
     {
-      q= 0xffff;
-      r= rX;
+      cX.W(q= 0xffff);
       f|= flagC;
     }
   else
     {
-      cX.W(q= rD/rX);
-      cD.W(r= rD%rX);
+      cX.W(q= n/d);
+      cD.W(r= n%d);
     }
   if (!q) f|= flagZ;
   cF.W(f);
@@ -663,20 +662,17 @@ CL11::IDIV(t_mem code)
 int
 CL11::FDIV(t_mem code)
 {
-  u32_t n= rD << 16;
-  u16_t q, r;
+  u32_t n= (u32_t)rD << 16;
+  u16_t q, r, d= rX;
   u8_t f= rF & ~(flagZ|flagV|flagC);
-  if( rX <= rD) f|= flagV;
-  if (rX == 0)
-    {
-      q= 0xffff;
-      r= rX;
-      f|= flagC;
-    }
+  if (d <= rD) f|= flagV;
+  if (d == 0) f|= flagC;
+  if (d <= rD)
+    cX.W(q= 0xffff);
   else
     {
-      cX.W(q= n/rX);
-      cD.W(r= n%rX);
+      cX.W(q= n/d);
+      cD.W(r= n%d);
     }
   if (!q) f|= flagZ;
   cF.W(f);
-- 
2.43.0


From 710625bda27cbb4b5e2162e50428e76aa82946fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 111/137] fix: M68HC11 stacks and restores Y too

---
 src/core/motorola.src/m68hc11.cc  | 36 +++++++++++++++++++++++++++++++
 src/core/motorola.src/m68hc11cl.h |  2 ++
 2 files changed, 38 insertions(+)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index f6d14c0..76c371a 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -408,6 +408,42 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 }
 */
 
+void
+CL11::push_regs(bool inst_part)
+{
+  rom->write(rSP--, PC&0xff);
+  rom->write(rSP--, PC>>8);
+  rom->write(rSP--, rIY&0xff);
+  rom->write(rSP--, rIY>>8);
+  rom->write(rSP--, rIX&0xff);
+  rom->write(rSP--, rIX>>8);
+  rom->write(rSP--, rA);
+  rom->write(rSP--, rB);
+  rom->write(rSP--, rCC);
+  if (!inst_part)
+    tick(9);
+}
+
+void
+CL11::pull_regs(bool inst_part)
+{
+  u8_t l, h;
+  cCC.W(rom->read(++rSP));
+  rB= rom->read(++rSP);
+  rA= rom->read(++rSP);
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIX= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIY= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  PC= h*256+l;
+  if (!inst_part)
+    tick(9);
+}
+
 int
 CL11::PAGE18(t_mem code)
 {
diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d8efeae..22ffe8f 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -80,6 +80,8 @@ public:
   
   virtual i8_t *tick_tab(t_mem code);
   virtual int tickt(t_mem code);
+  virtual void push_regs(bool inst_part);
+  virtual void pull_regs(bool inst_part);
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   //virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual int longest_inst(void) { return 6; }
-- 
2.43.0


From d6dcba6732d62815e666f97783e6de2b657f48f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 112/137] fix: M68HC11 cycles of MUL, IDIV, FDIV and
 instructions of the pages

---
 src/core/motorola.src/m68hc11.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 76c371a..545da22 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -45,10 +45,10 @@ instruction_wrapper_fn itab18[256];
 
 i8_t p0ticks11[256]= {
   /*      0  1  2  3  4  5  6  7  8  9  a  b  c  d  e  f  */
-  /* 0 */ 0, 2,40,40, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
+  /* 0 */ 0, 2,41,41, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
   /* 1 */ 2, 2, 6, 6, 6, 6, 2, 2, 0, 2, 0, 2, 7, 7, 7, 7,
   /* 2 */ 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4, 3,14,14,
+  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4,10,14,14,
   /* 4 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 5 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 6 */ 6, 0, 0, 6, 6, 0, 6, 6, 6, 6, 6, 0, 6, 6, 3, 6,
@@ -76,11 +76,11 @@ i8_t p18ticks11[256]= {
   /* 8 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 4,
   /* 9 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0,
   /* a */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 7, 7, 6, 6,
-  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0,
+  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 5,
-  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 5, 6,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 6
+  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6
 };
 
 i8_t pcdticks11[256]= {
@@ -119,8 +119,8 @@ i8_t p1aticks11[256]= {
   /* b */ 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0
+  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
 };
 
 
-- 
2.43.0


From 0f6409471aeb17398ba90411356058e8e57617ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 113/137] fix: Z180 IN0 sets the flags and leaves memory alone

---
 src/sims/z80.src/inst_ed.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 7f29e44..f37d351 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -65,7 +65,13 @@ int  cl_z80::inst_ed_(t_mem code)
         {
         case 0:  //  IN0
           ubtmp = fetch1( );
-          reg_g_store( (code >> 3) & 0x07, in_byte( ubtmp ) );
+          ubtmp = in_byte( ubtmp );
+          if (code != 0x30)     // IN0 (n) sets the flags only
+            reg_g_store( (code >> 3) & 0x07, ubtmp );
+          regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+          if (ubtmp == 0) regs.raf.F |= BIT_Z;
+          if (ubtmp & 0x80) regs.raf.F |= BIT_S;
+          if (parity(ubtmp)) regs.raf.F |= BIT_P;
           return resGO;
 
         case 1:  // OUT0
-- 
2.43.0


From ca30adcf5d0434a8fd7948da1916d4a8304562a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 114/137] fix: Z180 and eZ80 have MLT SP

---
 src/sims/z80.src/inst_ed.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index f37d351..2d555ed 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -434,9 +434,9 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0x7C: // MLT SP
-      //if(type != CPU_Z180)
-      return(resINV_INST);
-      //regs.SP = (unsigned long)(regs.sp.h) * (unsigned long)(regs.sp.l);
+      if (!(type->type & (CPU_Z180 | CPU_EZ80)))
+        return(resINV_INST);
+      regs.SP = (unsigned long)(regs.SP >> 8) * (unsigned long)(regs.SP & 0xff);
       return(resGO);
 
     case 0xA0: // LDI
-- 
2.43.0


From 27a29eeac4e923d2e6f0af24d43e98a833f96f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 115/137] fix: Z80N LDIX and LDDX copy the byte when it differs
 from A

---
 src/sims/z80.src/z80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3129686..ddfa26d 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1068,7 +1068,7 @@ cl_z80::inst_ldix(t_mem code)
   u8_t at_hl;
   at_hl= this->get1(regs.HL);
   vc.rd++;
-  if (at_hl == regs.raf.A)
+  if (at_hl != regs.raf.A)
     {
       this->store1(regs.DE, at_hl);
       vc.wr++;
@@ -1102,7 +1102,7 @@ cl_z80::inst_lddx(t_mem code)
   u8_t at_hl;
   at_hl= this->get1(regs.HL);
   vc.rd++;
-  if (at_hl == regs.raf.A)
+  if (at_hl != regs.raf.A)
     {
       this->store1(regs.DE, at_hl);
       vc.wr++;
-- 
2.43.0


From ad93aa14159cbfa6055ba3a05a2b80265873b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 116/137] fix: Z80N TEST sets H as AND does

---
 src/sims/z80.src/z80.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index ddfa26d..81d8d39 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1020,6 +1020,7 @@ bool cl_z80::inst_z80n(t_mem code, int *ret)
 	u8_t d= fetch();
 	d&= regs.raf.A;
 	regs.raf.F &= ~(BIT_ALL);
+	regs.raf.F |= BIT_A;
 	SET_Z(d);
 	SET_S(d);
 	if (parity(d))
-- 
2.43.0


From 03834ff7d54986f3e96c98f961dd81c8d81c9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 117/137] fix: Z80N PIXELDN steps to the next line of the
 screen at character and third boundaries

---
 src/sims/z80.src/z80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 81d8d39..5b2fe3d 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1001,10 +1001,10 @@ bool cl_z80::inst_z80n(t_mem code, int *ret)
       vc.wr+= 2;
       break;
     case 0x93: // pixeldn
-      if (regs.HL!=0x0700)
+      if ((regs.HL&0x0700)!=0x0700)
 	regs.HL+= 256;
       else if ((regs.HL&0xe0)!=0xe0)
-	regs.HL= (regs.HL&0xf800)+0x20;
+	regs.HL= (regs.HL&0xf8ff)+0x20;
       else
 	regs.HL= (regs.HL&0xf81f)+0x0800;
       break;
-- 
2.43.0


From 4adab6be98ddfed0a1c3fb61ecbce69eb9d8ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:55 +0000
Subject: [PATCH 118/137] fix: ST7 sets N from bit 7 of the result in NEG, TNZ,
 SWAP, shifts and rotates

---
 src/sims/st7.src/inst.cc | 62 ++++++++++------------------------------
 1 file changed, 15 insertions(+), 47 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 986d0ed..5f58bcd 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -523,13 +523,13 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
         break;
       case 6: // JRNM / JRM
         taken = !(regs.CC & BIT_I);
-        break;
-      case 7: // JRIL - interrupt low - no means to test this ???
-        taken = 1; 
-        break;
-      default:
-        return(resHALT);
-    } 
+        break;
+      case 7: // JRIL - interrupt low - no means to test this ???
+        taken = 1; 
+        break;
+      default:
+        return(resHALT);
+    } 
   if (code & 1)
     taken = ! taken;
   
@@ -646,11 +646,7 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, operand);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -709,11 +705,7 @@ cl_st7::inst_rlc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x100));
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -753,11 +745,7 @@ cl_st7::inst_rrc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -815,11 +803,7 @@ cl_st7::inst_sll(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (opres & 0x100));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -859,11 +843,7 @@ cl_st7::inst_sra(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -899,11 +879,7 @@ cl_st7::inst_srl(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -958,11 +934,7 @@ cl_st7::inst_swap(t_mem code, unsigned char prefix)
    
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -995,11 +967,7 @@ cl_st7::inst_tnz(t_mem code, unsigned char prefix)
    }
    
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    return(resGO);
 }
-- 
2.43.0


From e369e6b0355a6d09b5421c330b7de0548a938f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 119/137] fix: ST7 LD A, LD X and LD Y from memory set N and Z

---
 src/sims/st7.src/inst.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 5f58bcd..4c684ad 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -554,10 +554,8 @@ cl_st7::inst_ldxy(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((prefix == 0x90) || (prefix == 0x91)) {
      regs.Y = operand;
@@ -575,10 +573,8 @@ cl_st7::inst_lda(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
   regs.A = operand;
    
-- 
2.43.0


From a6698472169a910b81e21774568dc3566d24b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 120/137] fix: ST7 NEG of zero clears C

---
 src/sims/st7.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 4c684ad..23bf8f0 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -641,7 +641,7 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
    operand++;
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   FLAG_ASSIGN (BIT_C, operand);
+   FLAG_ASSIGN (BIT_C, operand & 0xff);
    FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
-- 
2.43.0


From f125148fdd91b6750b2a06fdf2c309883fb16d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 121/137] fix: ST7 CP Y and LD Y have the direct and indirect
 modes

---
 src/sims/st7.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 23bf8f0..ff7e596 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -51,9 +51,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
   switch ((code >> 4) & 0x0f) {
 	
     case 0xb:
-	  if ( 0 == prefix) {              // short direct
+	  if (( 0 == prefix) || ( 0x90 == prefix)) {              // short direct
 		 resaddr = fetch();
-     } else if ( 0x92 == prefix) {    // short indirect - pointer
+     } else if (( 0x92 == prefix) || ( 0x91 == prefix)) {    // short indirect - pointer
        resaddr = get1(fetch());
 	  } else {
 	    resaddr = ( resHALT);
@@ -61,9 +61,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
      break;
      
     case 0xc:
-	  if ( 0 == prefix) {              // long direct
+	  if (( 0 == prefix) || ( 0x90 == prefix)) {              // long direct
 		resaddr = fetch2();
-	  } else if ( 0x92 == prefix) {    // long indirect - pointer is under 0x100
+	  } else if (( 0x92 == prefix) || ( 0x91 == prefix)) {    // long indirect - pointer is under 0x100
        ftc = fetch();
        resaddr = get2(ftc);
 	  } else {
-- 
2.43.0


From 0a34fa5eff860be8c20b011a2c090fed77e28cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 122/137] fix: ST7 JP jumps to the effective address

---
 src/sims/st7.src/st7.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e211641..f80cc1c 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1023,7 +1023,7 @@ cl_st7::exec_inst(void)
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = OPERAND(code, cprefix);
+            PC = fetchea(code, cprefix);
             return( resGO);
             break;
          case 0x80: // 
-- 
2.43.0


From 8d0a7aebb6046f30bbebd6db8fe627462a49e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 123/137] fix: ST7 BTJT and BTJF copy the tested bit to C

---
 src/sims/st7.src/inst.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index ff7e596..35beda4 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -272,20 +272,24 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
   int ea = fetch();
   unsigned char dbyte = get1( ea);
   char reljump = fetch();
+  int bit;
   
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
-	if(!( dbyte & (1<<pos))) {
+	bit = dbyte & (1<<pos);
+	if(!bit) {
 		PC += reljump;
 	}
 	
   } else { // btjt
  	char pos = (code - 0x00) >> 1;
-	if ( dbyte & (1<<pos)) {
+	bit = dbyte & (1<<pos);
+	if (bit) {
 		PC += reljump;
 	}
 	
   }
+  FLAG_ASSIGN (BIT_C, bit);
   
   return(resGO);
 }
-- 
2.43.0


From d8872b1946f214d31649fa9fc81f4b4747f5b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 124/137] fix: ST7 bit instructions have the indirect mode

---
 src/sims/st7.src/inst.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 35beda4..d962199 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -250,6 +250,8 @@ int
 cl_st7::inst_bresbset(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92) // short indirect - pointer
+    ea = get1(ea);
   unsigned char dbyte = get1( ea);
   
   if (code & 0x01) { // bres  
@@ -270,6 +272,8 @@ int
 cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92) // short indirect - pointer
+    ea = get1(ea);
   unsigned char dbyte = get1( ea);
   char reljump = fetch();
   int bit;
-- 
2.43.0


From 7b37c07553318617c4e3b7c7df66ee2c8263fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 125/137] fix: ST7 LD S loads the low byte of SP, the stack is
 in page 1

---
 src/sims/st7.src/st7.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index f80cc1c..cdad35b 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -681,9 +681,9 @@ cl_st7::exec_inst(void)
             break;
          case 0x90: // 
             if(cprefix==0) {
-               regs.SP = regs.X;
+               regs.SP = 0x100 | regs.X;
             }else if (cprefix == 0x90) {
-               regs.SP = regs.Y;
+               regs.SP = 0x100 | regs.Y;
             } else {
                return (resHALT);
             }
@@ -725,7 +725,7 @@ cl_st7::exec_inst(void)
             break;
          case 0x90: // 
             if(cprefix==0) {
-               regs.SP = regs.A;
+               regs.SP = 0x100 | regs.A;
             } else {
                return (resHALT);
             }
-- 
2.43.0


From ef63be98b48f39238533d122aced8e2315f50c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 126/137] fix: ST7 MUL clears H and C

---
 src/sims/st7.src/st7.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index cdad35b..edb91ba 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -584,10 +584,12 @@ cl_st7::exec_inst(void)
                mulres = regs.X * regs.A;
                regs.A = mulres & 0xff;
                regs.X = mulres >> 8;
+               FLAG_CLEAR (BIT_H | BIT_C);
             }else if (cprefix == 0x90) {
                mulres = regs.Y * regs.A;
                regs.A = mulres & 0xff;
                regs.Y = mulres >> 8;
+               FLAG_CLEAR (BIT_H | BIT_C);
             } else {
                return (resHALT);
             }
-- 
2.43.0


From 21d48e1ef419badb6b7b39f0d74ad3fc1a641a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 127/137] fix: ST7 addresses wrap at 64K

---
 src/sims/st7.src/inst.cc  | 10 +++++-----
 src/sims/st7.src/st7.cc   | 10 +++++-----
 src/sims/st7.src/st7mac.h |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index d962199..28a53d0 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -282,14 +282,14 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 	char pos = (code - 0x01) >> 1;
 	bit = dbyte & (1<<pos);
 	if(!bit) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   } else { // btjt
  	char pos = (code - 0x00) >> 1;
 	bit = dbyte & (1<<pos);
 	if (bit) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   }
@@ -303,7 +303,7 @@ cl_st7::inst_call(t_mem code, unsigned char prefix)
 {
   int newPC = fetchea(code, prefix);
   push2(PC);
-  PC = newPC;
+  PC = newPC & 0xffff;
 
   return(resGO);
 }
@@ -322,7 +322,7 @@ cl_st7::inst_callr(t_mem code, unsigned char prefix)
    }
    
    push2(PC);
-   PC += newPC;
+   PC = (PC + newPC) & 0xffff;
 
    return(resGO);
 }
@@ -550,7 +550,7 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
    }
 
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
 
   return(resGO);
 }
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index edb91ba..650ddf7 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1025,7 +1025,7 @@ cl_st7::exec_inst(void)
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = fetchea(code, cprefix);
+            PC = fetchea(code, cprefix) & 0xffff;
             return( resGO);
             break;
          case 0x80: // 
@@ -1091,7 +1091,7 @@ cl_st7::exec_inst(void)
             break;
          case 0x80: // HALT
             FLAG_CLEAR (BIT_I);
-            PC--;
+            PC = instPC;
             return(resHALT);
             break;
          case 0x90: // LD A,SP
@@ -1135,7 +1135,7 @@ cl_st7::exec_inst(void)
             break;
          case 0x80: // WFI
             FLAG_CLEAR (BIT_I);
-            PC--;
+            PC = instPC;
             return(resHALT);
             break;
          case 0x90: // ld A,X LD A,Y
@@ -1194,14 +1194,14 @@ t_mem
 cl_st7::get_1(t_addr addr)
 {
   vc.rd++;
-  return ram->read(addr);
+  return ram->read(addr & 0xffff);
 }
 
 t_mem
 cl_st7::get_2(t_addr addr)
 {
   vc.rd+= 2;
-  return (ram->read(addr) << 8) | ram->read(addr+1);
+  return (ram->read(addr & 0xffff) << 8) | ram->read((addr+1) & 0xffff);
 }
 
 t_mem
diff --git a/src/sims/st7.src/st7mac.h b/src/sims/st7.src/st7mac.h
index ecd89b9..4b66acd 100644
--- a/src/sims/st7.src/st7mac.h
+++ b/src/sims/st7.src/st7mac.h
@@ -16,8 +16,8 @@
 #define BITPOS_I 3  // 8H
 #define BITPOS_H 4  // 10H
 
-#define store2(addr, val) { ram->write((t_addr) (addr), (val >> 8) & 0xff); ram->write((t_addr) (addr+1), val & 0xff); vc.wr+= 2; }
-#define store1(addr, val) { ram->write((t_addr) (addr), val); vc.wr++; }
+#define store2(addr, val) { ram->write((t_addr) (addr) & 0xffff, (val >> 8) & 0xff); ram->write((t_addr) (addr+1) & 0xffff, val & 0xff); vc.wr+= 2; }
+#define store1(addr, val) { ram->write((t_addr) (addr) & 0xffff, val); vc.wr++; }
 #define get1(addr) get_1(addr)
 //ram->get((t_addr) (addr))
 #define get2(addr) get_2(addr)
-- 
2.43.0


From 5ed301683b967abf0e2635b8da1b8c15ba95fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:30 +0000
Subject: [PATCH 128/137] fix: PDK NADD sets C and OV from the 8 bit sum

---
 src/sims/pdk.src/pdk14.cc | 2 +-
 src/sims/pdk.src/pdk15.cc | 2 +-
 src/sims/pdk.src/pdk16.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/pdk.src/pdk14.cc b/src/sims/pdk.src/pdk14.cc
index 7ec811c..c3141bb 100644
--- a/src/sims/pdk.src/pdk14.cc
+++ b/src/sims/pdk.src/pdk14.cc
@@ -390,7 +390,7 @@ cl_fpp14::execute(unsigned int code)
     sub_to(get_mem(code & 0x7F), rA);
   } else if (CODE_MASK(0x0700, 0x7F)) {
     // nadd a, m
-    cA.W(add_to(get_mem(code & 0x7F), -rA));
+    cA.W(add_to(get_mem(code & 0x7F), (u8_t)-rA));
   } else if (CODE_MASK(0x0780, 0x7F)) {
     // nadd m, a
     int addr = code & 0x7F;
diff --git a/src/sims/pdk.src/pdk15.cc b/src/sims/pdk.src/pdk15.cc
index 4bfa185..c5ff5a8 100644
--- a/src/sims/pdk.src/pdk15.cc
+++ b/src/sims/pdk.src/pdk15.cc
@@ -390,7 +390,7 @@ cl_fpp15::execute(unsigned int code)
     sub_to(get_mem(code & 0xFF), rA);
   } else if (CODE_MASK(0x0E00, 0xFF)) {
     // nadd a, m
-    cA.W(add_to(get_mem(code & 0xFF), -rA));
+    cA.W(add_to(get_mem(code & 0xFF), (u8_t)-rA));
   } else if (CODE_MASK(0x0F00, 0xFF)) {
     // nadd m, a
     int addr = code & 0xFF;
diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index ccaa93b..bdd9f5f 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -374,7 +374,7 @@ cl_fpp16::execute(unsigned int code)
       wr8(u, add_to(rd8(u), fC));
       return resGO;
     case 0x3400: // nadd a,M
-      cA.W(add_to(rd8(code & 0x1ff), -rA));
+      cA.W(add_to(rd8(code & 0x1ff), (u8_t)-rA));
       return resGO;
     case 0x3600: // nadd M,a
       u= code & 0x1ff;
-- 
2.43.0


From 3f03862119017c8b996fd9ce27db742c164c1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:21 +0000
Subject: [PATCH 129/137] fix: BRK of the 6502 takes 7 cycles

---
 src/sims/mos6502.src/mos6502.cc  | 2 +-
 src/sims/mos6502.src/mos65c02.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 433b34d..1c71f80 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -715,7 +715,7 @@ cl_mos6502::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  tick(set_b?1:2); // fetch of BRK is already counted
   push_addr(PC);
   rom->write(SPh + rSP, rF|0x20);
   if (set_b)
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index 21ac4e5..d258cb4 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -91,7 +91,7 @@ cl_mos65c02::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  tick(set_b?1:2); // fetch of BRK is already counted
   push_addr(PC);
   rom->write(0x0100 + rSP, rF|0x20);
   if (set_b)
-- 
2.43.0


From da1ad3ac8f3401a97b4b15edba9e57055fa63c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:21 +0000
Subject: [PATCH 130/137] fix: FIRQ of the 6809 is masked when F is set

---
 src/sims/m6809.src/m6809.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 4915e90..686a2d2 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -171,6 +171,7 @@ cl_m6809::mk_hw_elements(void)
 			  "Fast interrupt request",
 			  0);
   src_firq->set_cid('f');
+  src_firq->set_ie_value(0);
   src_firq->init();
   it_sources->add(src_firq);
   
-- 
2.43.0


From 232f1ff4cf6bbb0271b36d809c04f10d482245d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:21 +0000
Subject: [PATCH 131/137] fix: NMI of the M6800 sets the interrupt mask, too

---
 src/core/motorola.src/m6800.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index c01ecb6..7646bff 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -515,9 +515,7 @@ cl_m6800::accept_it(class it_level *il)
       push_regs(false);
   wai= false;
   
-  if ((is == src_irq) ||
-      (is == src_swi))
-    rCC|= flagI;
+  rCC|= flagI;
   
   t_addr a= read_addr(rom, is->addr);
   PC= a;
-- 
2.43.0


From bea5e6ea4617b9c2e929a2abb84424990002add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:21 +0000
Subject: [PATCH 132/137] fix: interrupt vectors of the M68HC11

---
 src/core/motorola.src/m68hc11.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 545da22..dfacd5f 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -186,6 +186,9 @@ cl_m68hcbase::print_regs(class cl_console_base *con)
 cl_m68hc11::cl_m68hc11(class cl_sim *asim):
   cl_m68hcbase(asim)
 {
+  IRQ_AT	= 0xfff2;
+  NMI_AT	= 0xfff4;
+  SWI_AT	= 0xfff6;
   cCC.decode(&CC);
 }
 
-- 
2.43.0


From 9d68b46d3c7dbbff3e144a291a08047f475ca07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 133/137] fix: NMI of the 6809 is enabled by the first load of
 S

---
 src/sims/m6809.src/m6809.cc  | 15 +++++++++++----
 src/sims/m6809.src/m6809cl.h |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 686a2d2..3c9c2e5 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -86,12 +86,19 @@ cl_m6809::reset(void)
   cl_uc::reset();
 
   reg.DP= 0;
-  en_nmi= false;
+  enable_nmi(false);
   cwai= false;
   reg.CC= flagI | flagF;
   PC= rom->read(0xfffe)*256 + rom->read(0xffff);
   tick(6);
 }
+
+void
+cl_m6809::enable_nmi(bool en)
+{
+  en_nmi= en;
+  irq_hw->cfg_set(cpu_nmi_en, en?1:0);
+}
   
 void
 cl_m6809::set_PC(t_addr addr)
@@ -144,7 +151,7 @@ cl_m6809::mk_hw_elements(void)
   add_hw(h= new cl_dreg(this, 0, "dreg"));
   h->init();
   
-  add_hw(h= new cl_m6809_irq(this));
+  add_hw(h= irq_hw= new cl_m6809_irq(this));
   h->init();
 
   src_irq= new cl_it_src(this,
@@ -1063,7 +1070,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     {
       *acc= r;
       if (acc == &reg.S)
-	en_nmi= true;
+	enable_nmi(true);
     }
   
   return resGO;
@@ -1114,7 +1121,7 @@ cl_m6809::inst_ld16(t_mem code, u16_t *acc, u16_t op)
   SET_S(op&0x8000);
 
   if (acc == &reg.S)
-    en_nmi= true;
+    enable_nmi(true);
   
   return resGO;
 }
diff --git a/src/sims/m6809.src/m6809cl.h b/src/sims/m6809.src/m6809cl.h
index a699000..3f2ed7f 100644
--- a/src/sims/m6809.src/m6809cl.h
+++ b/src/sims/m6809.src/m6809cl.h
@@ -89,6 +89,7 @@ public:
 public:
   class cl_address_space *rom;
   class cl_it_src *src_irq, *src_firq, *src_nmi;
+  class cl_hw *irq_hw;
 protected:
   u8_t *reg8_ptr[8];
   u16_t *reg16_ptr[8];
@@ -97,6 +98,7 @@ public:
   virtual int init(void);
   virtual const char *id_string(void);
   virtual void reset(void);
+  virtual void enable_nmi(bool en);
   virtual void set_PC(t_addr addr);
 
   virtual void mk_hw_elements(void);
-- 
2.43.0


From 3f66e09a73de0e87bc0e681647b7c548cfb99fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 134/137] fix: NMI and SWI of the M6800 are enabled

---
 src/core/motorola.src/irq68.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index 77f70ef..d1eab0d 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -47,6 +47,9 @@ cl_irq_hw::init()
 
   cl_hw::init();
 
+  cfg_cell(m68_nmi_en)->set(1);
+  cfg_cell(m68_swi_en)->set(1);
+
   return 0;
 }
 
-- 
2.43.0


From 84cbd4db9dda9c9b61e830e9cd2db2e787d29bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 135/137] fix: bit time of the MCS-51 UART in mode 2 is 64 or
 32 clocks

---
 src/sims/s51.src/serial.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/serial.cc b/src/sims/s51.src/serial.cc
index 7c4e3c7..9263592 100644
--- a/src/sims/s51.src/serial.cc
+++ b/src/sims/s51.src/serial.cc
@@ -180,7 +180,7 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	  break;
 	case 2:
 	  _bits= 11;
-	  _divby= _bmSMOD?16:32;
+	  _divby= _bmSMOD?32:64;
 	  break;
 	case 3:
 	  _bits= 11;
@@ -203,7 +203,9 @@ cl_serial::write(class cl_memory_cell *cell, t_mem *val)
 	  _divby= _bmSMOD?16:32;
 	  break;
 	  }*/
-      if (_mode)
+      if (_mode == 2)
+	_divby= _bmSMOD?32:64;
+      else if (_mode)
 	_divby= _bmSMOD?16:32;
     }
   else
-- 
2.43.0


From 0181af979262aec8db4f0016f81a27b1297d2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 136/137] fix: RCLK and TCLK select the clock of the MCS-51
 UART separately, in modes 1 and 3 only

---
 src/sims/s51.src/serial.cc  | 47 +++++++++++++++++++++++--------------
 src/sims/s51.src/serialcl.h |  2 +-
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/sims/s51.src/serial.cc b/src/sims/s51.src/serial.cc
index 9263592..8f56d80 100644
--- a/src/sims/s51.src/serial.cc
+++ b/src/sims/s51.src/serial.cc
@@ -81,10 +81,11 @@ cl_serial::init(void)
   if (there_is_t2)
     {
       t_mem d= sfr->get(T2CON);
-      t2_baud= d & (bmRCLK | bmTCLK);
+      t2_rec= d & bmRCLK;
+      t2_tr= d & bmTCLK;
     }
   else
-    t2_baud= false;
+    t2_rec= t2_tr= false;
   /*
   chars pn(id_string);
   pn.append("%d_", id);
@@ -102,7 +103,8 @@ cl_serial::new_hw_added(class cl_hw *new_hw)
     {
       there_is_t2= true;
       t_mem d= sfr->get(T2CON);
-      t2_baud= d & (bmRCLK | bmTCLK);
+      t2_rec= d & bmRCLK;
+      t2_tr= d & bmTCLK;
     }
 }
 
@@ -245,6 +247,7 @@ cl_serial::serial_bit_cnt(void)
 {
   //int divby= 12;
   int *tr_src= 0, *rec_src= 0;
+  int tr_div= _divby, rec_div= _divby;
 
   switch (_mode)
     {
@@ -258,6 +261,10 @@ cl_serial::serial_bit_cnt(void)
       //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
       tr_src = &s_tr_t1;
       rec_src= &s_rec_t1;
+      if (t2_tr)
+	tr_div= 16;
+      if (t2_rec)
+	rec_div= 16;
       break;
     case 2:
       //divby  = (/*pcon->get()&bmSMOD*/_bmSMOD)?16:32;
@@ -265,22 +272,20 @@ cl_serial::serial_bit_cnt(void)
       rec_src= &s_rec_tick;
       break;
     }
-  if (t2_baud)
-    _divby= 16;
   if (s_sending)
     {
-      while (*tr_src >= _divby)
+      while (*tr_src >= tr_div)
 	{
-	  (*tr_src)-= _divby;
+	  (*tr_src)-= tr_div;
 	  if (s_tr_bit < _bits)
 	    s_tr_bit++;
 	}
     }
   if (s_receiving)
     {
-      while (*rec_src >= _divby)
+      while (*rec_src >= rec_div)
 	{
-	  (*rec_src)-= _divby;
+	  (*rec_src)-= rec_div;
 	  s_rec_bit++;
 	}
     }
@@ -370,8 +375,10 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       if (where->id == 1)
 	{
-	  s_rec_t1++;
-	  s_tr_t1++;
+	  if (!t2_rec)
+	    s_rec_t1++;
+	  if (!t2_tr)
+	    s_tr_t1++;
 	}
       if (where->id == 2 /*&& there_is_t2*/)
 	{
@@ -379,15 +386,21 @@ cl_serial::happen(class cl_hw *where, enum hw_event he, void *params)
 	    {
 	    case EV_T2_MODE_CHANGED:
 	      {
-		if (!t2_baud)
-		  s_rec_t1= s_tr_t1= 0;
 		t_mem *d= (t_mem *)params;
-		t2_baud= *d & (bmRCLK | bmTCLK);
+		bool rec= *d & bmRCLK, tr= *d & bmTCLK;
+		if (rec != t2_rec)
+		  s_rec_t1= 0;
+		if (tr != t2_tr)
+		  s_tr_t1= 0;
+		t2_rec= rec;
+		t2_tr= tr;
 		break;
 	      }
 	    case EV_OVERFLOW:
-	      s_rec_t1++;
-	      s_tr_t1++;
+	      if (t2_rec)
+		s_rec_t1++;
+	      if (t2_tr)
+		s_tr_t1++;
 	      break;
 	    default: break;
 	    }
@@ -417,7 +430,7 @@ cl_serial::print_info(class cl_console_base *con)
   int mode= (sc&(bmSM0|bmSM1))>>6;
   con->dd_printf("%s", modes[mode]);
   if (mode == 1 || mode == 2)
-    con->dd_printf(" (timer%d)", (t2_baud)?2:1);
+    con->dd_printf(" (timer%d)", (t2_tr)?2:1);
   con->dd_printf(" MultiProc=%s",
 		 (mode&2)?((sc&bmSM2)?"ON":"OFF"):"none");
   con->dd_printf(" irq=%s", (sfr->get(IE)&bmES)?"en":"dis");
diff --git a/src/sims/s51.src/serialcl.h b/src/sims/s51.src/serialcl.h
index 9eea9bc..6a46336 100644
--- a/src/sims/s51.src/serialcl.h
+++ b/src/sims/s51.src/serialcl.h
@@ -45,7 +45,7 @@ class cl_serial: public cl_serial_hw
 {
 protected:
   class cl_address_space *sfr, *bas;
-  bool there_is_t2, t2_baud;
+  bool there_is_t2, t2_rec, t2_tr;
   class cl_memory_cell *sbuf, *pcon, *scon, *scon_bits[8];
   int   s_rec_t1;	// T1 overflows for receiving
   int   s_tr_t1;	// T1 overflows for sending
-- 
2.43.0


From e2043417e663fc8522018365428192d85027294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:52 +0000
Subject: [PATCH 137/137] fix: reset of the 8052 clears the function of timer 2
 selected by T2MOD

---
 src/sims/s51.src/uc52.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/s51.src/uc52.cc b/src/sims/s51.src/uc52.cc
index e27fd86..91bbc47 100644
--- a/src/sims/s51.src/uc52.cc
+++ b/src/sims/s51.src/uc52.cc
@@ -128,6 +128,7 @@ cl_uc52::clear_sfr(void)
 {
   cl_51core::clear_sfr();
   sfr->write(T2CON, 0);
+  sfr->write(T2MOD, 0);
   sfr->write(TH2, 0);
   sfr->write(TL2, 0);
   sfr->write(RCAP2L, 0);
-- 
2.43.0


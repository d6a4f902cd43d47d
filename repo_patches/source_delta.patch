From a4b30f6666ed500221090a7e2c83bd46b896ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 01/87] fix: keep the full branch offset in rewritten
 conditional branches

The byte offset was truncated to 16 bits, so branches beyond +-32 KiB went
to the wrong address in the dispatch loops. Store it in instructions.
---
 lib/libloong/bytecode_impl.cpp      | 20 ++++++++++----------
 lib/libloong/threaded_bytecodes.hpp | 19 +++++++++----------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index bf048c0..df8e7f8 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -460,7 +460,7 @@ INSTRUCTION(LA64_BC_BEQZ, la64_beqz)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -470,7 +470,7 @@ INSTRUCTION(LA64_BC_BNEZ, la64_bnez)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -480,7 +480,7 @@ INSTRUCTION(LA64_BC_BEQ, la64_beq)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -490,7 +490,7 @@ INSTRUCTION(LA64_BC_BNE, la64_bne)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -500,7 +500,7 @@ INSTRUCTION(LA64_BC_BLT, la64_blt)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) < (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -510,7 +510,7 @@ INSTRUCTION(LA64_BC_BGE, la64_bge)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) >= (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -520,7 +520,7 @@ INSTRUCTION(LA64_BC_BLTU, la64_bltu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) < REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -530,7 +530,7 @@ INSTRUCTION(LA64_BC_BGEU, la64_bgeu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) >= REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -718,7 +718,7 @@ INSTRUCTION(LA64_BC_BCEQZ, la64_bceqz)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REGISTERS().cf(fi.rj) == 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -728,7 +728,7 @@ INSTRUCTION(LA64_BC_BCNEZ, la64_bcnez)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REGISTERS().cf(fi.rj) != 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 7d1e6da..eb2b881 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -410,15 +410,14 @@ namespace loongarch
 	union FasterLA64_RI21_Branch {
 		uint32_t whole;
 		struct {
-			uint8_t rj;      // bits [4:0] - register to test (or condition flag for BC*)
-			uint8_t padding; // bits [12:5] - unused, available for future use
-			int16_t offset;  // bits [28:13] - pre-computed offset (sign-extended, already << 2)
+			uint32_t rj : 8;      // register to test (or condition flag for BC*)
+			int32_t  offset : 24; // branch offset in instructions (sign-extended)
 		};
 		void set_offset(int32_t offs) {
-			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// The byte offset is always a multiple of 4 and fits in 23 bits
+			this->offset = offs >> 2;
 		}
+		int32_t get_offset() const { return this->offset * 4; }
 	};
 
 	// Optimized format for comparison branches with 16-bit offset (BEQ, BNE, BLT, BGE, BLTU, BGEU)
@@ -427,13 +426,13 @@ namespace loongarch
 		struct {
 			uint8_t rd;      // bits [4:0] - first register
 			uint8_t rj;      // bits [9:5] - second register
-			int16_t offset;  // bits [25:10] - pre-computed offset (sign-extended, already << 2)
+			int16_t offset;  // bits [25:10] - branch offset in instructions (sign-extended)
 		};
 		void set_offset(int32_t offs) {
-			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// The byte offset is always a multiple of 4 and fits in 18 bits
+			this->offset = (int16_t)(offs >> 2);
 		}
+		int32_t get_offset() const { return this->offset * 4; }
 	};
 
 } // namespace loongarch
-- 
2.43.0


From ee7b55e130a33a632a7f84aba9637ed0fcb6ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 02/87] fix: do not truncate the instruction count of long
 blocks to 8 bits

---
 lib/libloong/decoder_cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 9fab1cc..f370e07 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -16,7 +16,7 @@ namespace loongarch
 
 		// Calculate number of instructions in this block (LoongArch = 4 bytes per instruction)
 		// This includes the current (diverging) instruction: block instructions + 1
-		uint8_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
+		uint32_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
 
 		// Bytecode accessors for threaded dispatch
 		uint8_t get_bytecode() const noexcept { return bytecode; }
-- 
2.43.0


From aaa99a7fdf4a7f2e4d12ebb6a93d12e8f9545dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 03/87] fix: end decoded blocks at STOP and at SYSCALL/BREAK
 with a code field

Blocks ran past these instructions, which made the dispatch loops use the
program counter and instruction count of the end of the following code.
---
 lib/libloong/decoder_cache.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 6f0b101..8f86367 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -31,9 +31,11 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			return true;
 		}
 
-		// System calls (exact match required)
-		if (instr == Opcode::SYSCALL) return true;
-		if (instr == Opcode::BREAK) return true;
+		// System calls (any code field, matching the decoder)
+		if ((instr & 0xFFFFFC00) == Opcode::SYSCALL) return true;
+		if ((instr & 0xFFFFFC00) == Opcode::BREAK) return true;
+		// The STOP instruction (MOVE zero, zero) ends execution
+		if (instr == 0x00150000) return true;
 
 		return false;
 	}
-- 
2.43.0


From f5e702a9bf426fbc61b78beba50f646858167d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 04/87] fix: do not decode ORI with register-dependent bits as
 MOVE

---
 lib/libloong/decoder_cache.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 8f86367..07776d8 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -66,14 +66,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				return LA64_BC_OR;
 			}
 		case InstrId::ORI:
-			// MOVE is ORI with imm==0
-			{
-				const uint32_t imm = instr & 0xFFF;
-				if (imm == 0) {
-					return LA64_BC_MOVE;
-				}
-				return LA64_BC_ORI;
-			}
+			return LA64_BC_ORI;
 
 		case InstrId::LD_D: return LA64_BC_LD_D;
 		case InstrId::ST_D: return LA64_BC_ST_D;
-- 
2.43.0


From 1a186df15767c908ae3f8647a21a857f189838cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 05/87] fix: sign-extend the SLTUI immediate in the threaded
 engine

---
 lib/libloong/threaded_rewriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5ce172a..2505f33 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -638,12 +638,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_SLTUI: {
-			// SLTUI rd, rj, imm12 - uses RI12 format with zero-extended immediate
+			// SLTUI rd, rj, imm12 - uses RI12 format
 			auto fi = *(FasterLA64_RI12 *)&instruction_bits;
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
-			// SLTUI uses zero-extended immediate for unsigned comparison
-			fi.imm = original.ri12.imm & 0xFFF;
+			// SLTUI sign-extends the immediate before the unsigned comparison
+			fi.set_imm(original.ri12.imm);
 			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
-- 
2.43.0


From 75789850cb83f0d9bac00951d0c6a28bfb5f72b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 06/87] fix: full-width bit-field instructions and sign of
 BSTRPICK.W

---
 lib/libloong/bytecode_impl.cpp | 10 +++++-----
 lib/libloong/la_instr_impl.hpp |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index df8e7f8..076a4ea 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -194,7 +194,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_D, la64_bstrpick_d)
 	auto fi = *(FasterLA64_BitField *)&DECODER().instr;
 	const address_t src = REG(fi.rj);
 	const uint32_t width = fi.msbd - fi.lsbd + 1;
-	const address_t mask = (1ULL << width) - 1;
+	const address_t mask = ~0ULL >> ((64 - width) & 63);
 	REG(fi.rd) = (src >> fi.lsbd) & mask;
 	NEXT_INSTR();
 }
@@ -302,14 +302,14 @@ INSTRUCTION(LA64_BC_STX_D, la64_stx_d)
 	NEXT_INSTR();
 }
 
-// LA64_BC_BSTRPICK_W: Bit string pick word (rd = extract bits[msbw:lsbw] from rj, zero-extend)
+// LA64_BC_BSTRPICK_W: Bit string pick word (rd = sign_ext(extract bits[msbw:lsbw] from rj))
 INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 {
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
 	const uint32_t width = fi.msbw - fi.lsbw + 1;
-	const uint32_t mask = (1U << width) - 1;
-	REG(fi.rd) = (src >> fi.lsbw) & mask;
+	const uint32_t mask = ~0U >> ((32 - width) & 31);
+	REG(fi.rd) = (saddress_t)(int32_t)((src >> fi.lsbw) & mask);
 	NEXT_INSTR();
 }
 
@@ -419,7 +419,7 @@ INSTRUCTION(LA64_BC_BSTRINS_D, la64_bstrins_d)
 	// Valid when msbd >= lsbd
 	if (fi.msbd >= fi.lsbd) {
 		uint32_t width = fi.msbd - fi.lsbd + 1;
-		uint64_t mask = ((1ULL << width) - 1) << fi.lsbd;
+		uint64_t mask = (~0ULL >> (64 - width)) << fi.lsbd;
 		uint64_t bits = (src << fi.lsbd) & mask;
 		REG(fi.rd) = (dst & ~mask) | bits;
 	}
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f170aff..99f2dbc 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -592,7 +592,7 @@ struct InstrImpl {
 		// Valid when msbd >= lsbd
 		if (msbd >= lsbd) {
 			uint32_t width = msbd - lsbd + 1;
-			uint64_t mask = ((1ULL << width) - 1) << lsbd;
+			uint64_t mask = (~0ULL >> (64 - width)) << lsbd;
 			uint64_t bits = (src << lsbd) & mask;
 			cpu.reg(instr.ri16.rd) = (dst & ~mask) | bits;
 		}
@@ -606,7 +606,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbd - lsbd + 1;
-		uint64_t mask = (1ULL << width) - 1;
+		uint64_t mask = ~0ULL >> ((64 - width) & 63);
 		uint64_t result = (src >> lsbd) & mask;
 		cpu.reg(instr.ri16.rd) = result;
 	}
@@ -622,7 +622,7 @@ struct InstrImpl {
 		// Valid when msbw >= lsbw
 		if (msbw >= lsbw) {
 			uint32_t width = msbw - lsbw + 1;
-			uint32_t mask = ((1U << width) - 1) << lsbw;
+			uint32_t mask = (~0U >> (32 - width)) << lsbw;
 			uint32_t bits = (src << lsbw) & mask;
 			uint32_t result = (dst & ~mask) | bits;
 			// Sign-extend to 64 bits
@@ -639,7 +639,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbw - lsbw + 1;
-		uint32_t mask = (1U << width) - 1;
+		uint32_t mask = ~0U >> ((32 - width) & 31);
 		uint32_t result = (src >> lsbw) & mask;
 		cpu.reg(instr.ri16.rd) = (int32_t)result;
 	}
-- 
2.43.0


From 8c451a95bce100c77fb4e154102e82a0bb175dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 07/87] fix: BYTEPICK.D picks from the upper end of the
 concatenation

---
 lib/libloong/bytecode_impl.cpp | 4 ++--
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 076a4ea..d7f236e 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -752,9 +752,9 @@ INSTRUCTION(LA64_BC_BYTEPICK_D, la64_bytepick_d)
 	uint32_t shift = fi.sa3 * 8;
 	uint64_t result;
 	if (shift == 0) {
-		result = rj_val;
+		result = rk_val;
 	} else {
-		result = (rk_val << (64 - shift)) | (rj_val >> shift);
+		result = (rk_val << shift) | (rj_val >> (64 - shift));
 	}
 	REG(fi.rd) = result;
 	NEXT_INSTR();
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 99f2dbc..411986d 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -164,7 +164,7 @@ struct InstrImpl {
 	static void BYTEPICK_D(cpu_t& cpu, la_instruction instr) {
 		// BYTEPICK.D rd, rj, rk, sa3
 		// Concatenates rk and rj as a 128-bit value [rk:rj]
-		// Then extracts 64 bits starting at byte offset sa3
+		// Then extracts 64 bits starting at byte offset (8 - sa3)
 		uint32_t sa3 = (instr.whole >> 15) & 0x7;
 		uint64_t rj_val = cpu.reg(instr.r3.rj);
 		uint64_t rk_val = cpu.reg(instr.r3.rk);
@@ -172,12 +172,12 @@ struct InstrImpl {
 		// Shift amount in bits = sa3 * 8
 		uint32_t shift = sa3 * 8;
 
-		// Result is (rk << (64 - shift)) | (rj >> shift)
+		// Result is (rk << shift) | (rj >> (64 - shift))
 		uint64_t result;
 		if (shift == 0) {
-			result = rj_val;
+			result = rk_val;
 		} else {
-			result = (rk_val << (64 - shift)) | (rj_val >> shift);
+			result = (rk_val << shift) | (rj_val >> (64 - shift));
 		}
 		cpu.reg(instr.r3.rd) = result;
 	}
-- 
2.43.0


From d15ae6a7d55f7c88869ce36cc3482a5033a6e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 08/87] fix: signed division of the minimum value by -1 must
 not trap the host

---
 lib/libloong/la_instr_impl.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 411986d..59abf0b 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -62,13 +62,18 @@ struct InstrImpl {
 	static void DIV_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
+		// The quotient INT_MIN / -1 overflows back to INT_MIN
+		if (b == -1)
+			cpu.reg(instr.r3.rd) = static_cast<int64_t>(static_cast<int32_t>(0u - static_cast<uint32_t>(a)));
+		else
+			cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
 	}
 
 	static void MOD_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a % b) : 0;
+		// Any remainder of a division by -1 is zero
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? static_cast<int64_t>(a % b) : 0;
 	}
 
 	static void DIV_WU(cpu_t& cpu, la_instruction instr) {
@@ -86,13 +91,18 @@ struct InstrImpl {
 	static void DIV_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
+		// The quotient INT_MIN / -1 overflows back to INT_MIN
+		if (b == -1)
+			cpu.reg(instr.r3.rd) = 0ull - static_cast<uint64_t>(a);
+		else
+			cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
 	}
 
 	static void MOD_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a % b) : 0;
+		// Any remainder of a division by -1 is zero
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? (a % b) : 0;
 	}
 
 	static void DIV_DU(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From b3f67ddd470ae85232d04d89464ecb2c53d6609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 09/87] fix: decode ROTRI.D at its real opcode

---
 lib/libloong/la64.cpp     | 3 +--
 lib/libloong/la_instr.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 291f6fa..3b0ed02 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -537,8 +537,7 @@ namespace loongarch
 				if (op16 == 0x0045) return DECODED_INSTR(SRLI_D);
 				if (op16 == 0x0048) return DECODED_INSTR(SRAI_W);
 				if (op16 == 0x0049) return DECODED_INSTR(SRAI_D);
-				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x0024)
-				if (op16 == 0x0024) return DECODED_INSTR(ROTRI_D);
+				if (op16 == 0x004D) return DECODED_INSTR(ROTRI_D);
 			}
 
 			// ROTRI.W: bits[31:15] = 0x00099 (format DJUk5)
diff --git a/lib/libloong/la_instr.hpp b/lib/libloong/la_instr.hpp
index 95a8791..14350ee 100644
--- a/lib/libloong/la_instr.hpp
+++ b/lib/libloong/la_instr.hpp
@@ -163,7 +163,7 @@ namespace Opcode {
 	constexpr uint32_t SRLI_D     = 0x00450000;
 	constexpr uint32_t SRAI_W     = 0x00488000;
 	constexpr uint32_t SRAI_D     = 0x00490000;
-	constexpr uint32_t ROTRI_D    = 0x02400000;  // Rotate Right Immediate Doubleword (op16=0x0024)
+	constexpr uint32_t ROTRI_D    = 0x004D0000;  // Rotate Right Immediate Doubleword (op16=0x004D)
 	constexpr uint32_t ROTRI_W    = 0x004C8000;  // Rotate Right Immediate Word (op15=0x00099)
 	constexpr uint32_t ROTR_W     = 0x001B0000;  // Rotate Right Word (op17)
 	constexpr uint32_t ROTR_D     = 0x001B8000;  // Rotate Right Doubleword (op17)
-- 
2.43.0


From 539a27097eb7d338760c203609d373cd4f802d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 10/87] fix: ALSL.WU zero-extends its result

---
 lib/libloong/la64.cpp              | 8 +++++---
 lib/libloong/la_instr.hpp          | 1 +
 lib/libloong/la_instr_enum.hpp     | 1 +
 lib/libloong/la_instr_impl.hpp     | 7 +++++++
 lib/libloong/la_instr_printers.hpp | 6 ++++++
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 3b0ed02..6ecbc57 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -211,6 +211,7 @@ namespace loongarch
 
 	// ALSL.W
 	INSTRUCTION(ALSL_W);
+	INSTRUCTION(ALSL_WU);
 
 	// Vector Load/Store (LSX)
 	INSTRUCTION(VLD);
@@ -547,9 +548,10 @@ namespace loongarch
 				if (op15 == 0x00099) return DECODED_INSTR(ROTRI_W);
 			}
 
-			// ALSL.W and ALSL.D use bits [31:18] with sa2 in bits [16:15]
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
+			// ALSL.W, ALSL.WU and ALSL.D use bits [31:17] with sa2 in bits [16:15]
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_WU) return DECODED_INSTR(ALSL_WU);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
 
 			// Immediate instructions (op22 match)
 			if (op22 == (Opcode::ADDI_W & 0xFFC00000)) return DECODED_INSTR(ADDI_W);
diff --git a/lib/libloong/la_instr.hpp b/lib/libloong/la_instr.hpp
index 14350ee..dbf8aee 100644
--- a/lib/libloong/la_instr.hpp
+++ b/lib/libloong/la_instr.hpp
@@ -170,6 +170,7 @@ namespace Opcode {
 	constexpr uint32_t SRL_D      = 0x00190000;
 	constexpr uint32_t SRA_D      = 0x00198000;
 	constexpr uint32_t ALSL_W     = 0x00040000;  // Address Load Shift Left Word
+	constexpr uint32_t ALSL_WU    = 0x00060000;  // Address Load Shift Left Word Unsigned
 	constexpr uint32_t ALSL_D     = 0x002c0000;  // Address Load Shift Left Doubleword
 
 	// Load/Store
diff --git a/lib/libloong/la_instr_enum.hpp b/lib/libloong/la_instr_enum.hpp
index ffa4eb7..134a4f5 100644
--- a/lib/libloong/la_instr_enum.hpp
+++ b/lib/libloong/la_instr_enum.hpp
@@ -16,6 +16,7 @@ namespace loongarch {
 		ADD_W,
 		ALSL_D,
 		ALSL_W,
+		ALSL_WU,
 		AMADD_D,
 		AMADD_W,
 		AMAND_D,
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 59abf0b..ff5778c 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1651,6 +1651,13 @@ struct InstrImpl {
 		cpu.reg(instr.r3sa2.rd) = static_cast<int64_t>(result);
 	}
 
+	static void ALSL_WU(cpu_t& cpu, la_instruction instr) {
+		// ALSL.WU: GR[rd] = ZeroExtend((GR[rj] << (sa2 + 1)) + GR[rk], 32)
+		uint32_t shift = instr.r3sa2.sa2 + 1;
+		uint32_t result = (static_cast<uint32_t>(cpu.reg(instr.r3sa2.rj)) << shift) + static_cast<uint32_t>(cpu.reg(instr.r3sa2.rk));
+		cpu.reg(instr.r3sa2.rd) = result;
+	}
+
 	// === Vector Load/Store Instructions (LSX 128-bit) ===
 
 	static void VLD(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index 37948db..eed0701 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -936,6 +936,12 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 
 	// === ALSL.W ===
 
+	static int ALSL_WU(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
+		return snprintf(buf, len, "alsl.wu %s, %s, %s, 0x%x",
+			reg_name(instr.r3sa2.rd), reg_name(instr.r3sa2.rj),
+			reg_name(instr.r3sa2.rk), instr.r3sa2.sa2 + 1);
+	}
+
 	static int ALSL_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
 		return snprintf(buf, len, "alsl.w %s, %s, %s, 0x%x",
 			reg_name(instr.r3sa2.rd), reg_name(instr.r3sa2.rj),
-- 
2.43.0


From fc69f68f0fb388fa58c2ab7f6f3a84866a63b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 11/87] fix: decode AMXOR at its real opcode

---
 lib/libloong/la64.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 6ecbc57..8baa659 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -917,14 +917,11 @@ namespace loongarch
 						return is_64bit ? DECODED_INSTR(AMAND_D) : DECODED_INSTR(AMAND_W);
 					case 3: case 12: // AMOR (guessed)
 						return is_64bit ? DECODED_INSTR(AMOR_D) : DECODED_INSTR(AMOR_W);
-					// TODO: Verify AMXOR, AMMAX, AMMIN encodings when encountered
+					case 4: case 13: // AMXOR
+						return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
+					// TODO: Verify AMMAX, AMMIN encodings when encountered
 				}
 			}
-			// AMXOR: bits [31:20] = 0x387
-			if ((instr.whole & 0xFFF00000) == 0x38700000) {
-				bool is_64bit = ((instr.whole >> 15) & 1);
-				return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
-			}
 			break;
 		case 0x0B: // VLD / VST / XVLD / XVST instructions (op6 = 0x0B for 0x2Cxxxxxx)
 			// Example VLD: 2c0041a2
-- 
2.43.0


From e6cd3dd5d85d733637eb346120e7ed67492e691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 12/87] fix: FCLASS reports the LoongArch class bits

---
 lib/libloong/la_instr_impl.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index ff5778c..9c5577f 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1153,15 +1153,15 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint32_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.wu[0] & 0x00400000u) ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
-		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
-		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
+		} else if (fpclass == FP_SUBNORMAL) {
+			result = is_neg ? 0x010 : 0x100;
+		} else if (fpclass == FP_ZERO) {
+			result = is_neg ? 0x020 : 0x200;
 		}
 		vr_d.wu[0] = result;
 	}
@@ -1181,15 +1181,15 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint64_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.du[0] & 0x0008000000000000ull) ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
-		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
-		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
+		} else if (fpclass == FP_SUBNORMAL) {
+			result = is_neg ? 0x010 : 0x100;
+		} else if (fpclass == FP_ZERO) {
+			result = is_neg ? 0x020 : 0x200;
 		}
 		vr_d.du[0] = result;
 	}
-- 
2.43.0


From 4e810d7d628e8d39aa739a1b1060ed0952918dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 13/87] fix: writes to register zero are discarded by every
 instruction

---
 lib/libloong/bytecode_impl.cpp     | 4 ++++
 lib/libloong/cpu.cpp               | 2 ++
 lib/libloong/threaded_rewriter.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index d7f236e..5ca69ab 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1029,6 +1029,8 @@ INSTRUCTION(LA64_BC_FUNCTION, execute_decoded_function)
 	const auto handler = DECODER().get_handler();
 	//printf("Slow-path pc=0x%lx for instr %08X\n", RECONSTRUCT_PC(), DECODER().instr);
 	handler(CPU(), la_instruction{DECODER().instr});
+	// Writes to the zero register are discarded
+	REG(REG_ZERO) = 0;
 	NEXT_INSTR();
 }
 INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
@@ -1036,6 +1038,8 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	// Call the cached handler for this instruction
 	const auto handler = DECODER().get_extended_handler();
 	handler(CPU(), la_instruction{DECODER().instr});
+	// Writes to the zero register are discarded
+	REG(REG_ZERO) = 0;
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 83f6398..f654a0a 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -70,6 +70,8 @@ namespace loongarch
 	{
 		const auto& handler = decode(instr);
 		handler.handler(*this, instr);
+		// Writes to the zero register are discarded
+		reg(REG_ZERO) = 0;
 	}
 
 	bool CPU::is_executable(address_t addr) const noexcept
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 2505f33..ba78826 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -227,6 +227,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_PCALAU12I:
 		case LA64_BC_LU12I_W:
 			// No optimization needed - use original instruction bits
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_LDPTR_D: {
 			auto fi = *(FasterLA64_RI14 *)&instruction_bits;
@@ -676,9 +677,11 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		} break;
 		case LA64_BC_PCADDU12I:
 			// PCADDU12I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_PCADDU18I:
 			// PCADDU18I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_ANDN: {
 			// ANDN rd, rj, rk - uses R3 format
-- 
2.43.0


From 3c62da33c5c52d958ce5d24ca8c3c13cb6260abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 14/87] fix: STX.B of register zero stores a zero byte

---
 lib/libloong/threaded_rewriter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index ba78826..15b0a9f 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -698,7 +698,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_EXT_W_H: {
-- 
2.43.0


From aae6d09d41606082f0fe81d6ce5d6c123b77d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 15/87] fix: loads into register zero still access memory

---
 lib/libloong/decoder_cache.cpp     | 24 ++++++++++++++++++++++++
 lib/libloong/la_instr_impl.hpp     | 21 +++++++--------------
 lib/libloong/threaded_rewriter.cpp | 14 --------------
 3 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 07776d8..264b509 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -44,6 +44,30 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 	// Determine the bytecode for a given instruction using its ID
 	static uint8_t determine_bytecode(InstrId id, const uint32_t instr, const uint16_t handler_idx)
 	{
+		// A load into the zero register still accesses memory, and may
+		// fault, but the loaded value is discarded by the generic handler
+		if ((instr & 0x1F) == REG_ZERO) {
+			switch (id) {
+			case InstrId::LD_B:
+			case InstrId::LD_H:
+			case InstrId::LD_D:
+			case InstrId::LD_BU:
+			case InstrId::LD_HU:
+			case InstrId::LD_WU:
+			case InstrId::LDX_B:
+			case InstrId::LDX_H:
+			case InstrId::LDX_W:
+			case InstrId::LDX_D:
+			case InstrId::LDX_BU:
+			case InstrId::LDX_HU:
+			case InstrId::LDPTR_W:
+			case InstrId::LDPTR_D:
+				return LA64_BC_FUNCTION + (handler_idx >> 8);
+			default:
+				break;
+			}
+		}
+
 		// Use switch on instruction ID enum instead of re-decoding
 		// This maps InstrId to bytecode, avoiding duplicate decoding logic
 		switch (id) {
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 9c5577f..633fa00 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -281,44 +281,37 @@ struct InstrImpl {
 
 	static void LD_B(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int8_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int8_t, true>(addr);
 	}
 
 	static void LD_H(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int16_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int16_t, true>(addr);
 	}
 
 	static void LD_W(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int32_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int32_t, true>(addr);
 	}
 
 	static void LD_D(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = cpu.memory().template read<int64_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = cpu.memory().template read<int64_t, true>(addr);
 	}
 
 	static void LD_BU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint8_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint8_t, true>(addr);
 	}
 
 	static void LD_HU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint16_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint16_t, true>(addr);
 	}
 
 	static void LD_WU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
-		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint32_t, true>(addr);
+		cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint32_t, true>(addr);
 	}
 
 	static void PRELD(cpu_t&, la_instruction) {
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 15b0a9f..98fe91c 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -67,7 +67,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_MOVE: {
@@ -197,7 +196,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_ST_B: {
@@ -234,7 +232,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri14.rd;
 			fi.rj = original.ri14.rj;
 			fi.set_imm(original.ri14.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDPTR_W: {
@@ -242,7 +239,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri14.rd;
 			fi.rj = original.ri14.rj;
 			fi.set_imm(original.ri14.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STPTR_D: {
@@ -264,7 +260,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDX_D: {
@@ -272,7 +267,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_MASKEQZ: {
@@ -344,7 +338,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STX_H: {
@@ -359,7 +352,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STX_W: {
@@ -382,7 +374,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_ADD_W: {
@@ -414,7 +405,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_BSTRINS_D: {
@@ -654,7 +644,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDX_HU: {
@@ -663,7 +652,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LD_WU: {
@@ -672,7 +660,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_PCADDU12I:
@@ -714,7 +701,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_SLT: {
-- 
2.43.0


From a90d0906c5397afea67831181c07ebaf099497df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 16/87] fix: BREAK leaves the decoded block like a system call

---
 lib/libloong/decoder_cache.cpp                |  2 +-
 lib/libloong/tailcall_bytecode_array.hpp      |  1 +
 lib/libloong/tailcall_dispatch.cpp            | 17 +++++++++++++++++
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 12 ++++++++++++
 lib/libloong/threaded_bytecode_array.hpp      |  1 +
 lib/libloong/threaded_bytecodes.hpp           |  2 ++
 lib/libloong/threaded_dispatch.cpp            | 16 ++++++++++++++++
 lib/libloong/threaded_inaccurate_dispatch.cpp | 16 ++++++++++++++++
 8 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 264b509..2bd62c0 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -75,7 +75,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		case InstrId::SYSCALL:
 			return LA64_BC_SYSCALL;
 		case InstrId::BREAK:
-			return LA64_BC_FUNCTION;
+			return LA64_BC_SLOWPATH;
 		case InstrId::NOP:
 			return LA64_BC_NOP;
 
diff --git a/lib/libloong/tailcall_bytecode_array.hpp b/lib/libloong/tailcall_bytecode_array.hpp
index 0909d7d..3188108 100644
--- a/lib/libloong/tailcall_bytecode_array.hpp
+++ b/lib/libloong/tailcall_bytecode_array.hpp
@@ -115,6 +115,7 @@
 [LA64_BC_FUNCTION2] = execute_function_extended,
 [LA64_BC_SYSCALL]   = la64_syscall,
 [LA64_BC_SYSCALLIMM]= la64_syscall_imm,
+[LA64_BC_SLOWPATH]  = execute_slowpath,
 [LA64_BC_NOP]       = la64_nop,
 [LA64_BC_STOP]      = la64_stop,
 #ifdef LA_BINARY_TRANSLATION
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 15af969..cdbed7e 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -163,6 +163,23 @@ namespace loongarch
 		OVERFLOW_CHECKED_JUMP();
 	}
 
+	INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
+	{
+		// Make the current PC visible
+		cpu.registers().pc = pc;
+		counter.apply(MACHINE());
+		cpu.execute(la_instruction{d->instr});
+		// Restore counters
+		counter.retrieve_counters(MACHINE());
+		// The handler leaves PC one instruction before the next
+		if (LA_UNLIKELY(counter.max() == 0 || pc != cpu.registers().pc))
+		{
+			pc = cpu.registers().pc + 4;
+			OVERFLOW_CHECKED_JUMP();
+		}
+		NEXT_BLOCK_UNCHECKED(4);
+	}
+
 	INSTRUCTION(0, next_execute_segment)
 	{
 		// Helper function to change execute segment
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 0cfa43c..be3da34 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -146,6 +146,18 @@ namespace loongarch
 		UNCHECKED_JUMP();
 	}
 
+	INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
+	{
+		// Make the current PC visible
+		cpu.registers().pc = pc;
+		cpu.execute(la_instruction{d->instr});
+		// The handler leaves PC one instruction before the next
+		pc = cpu.registers().pc + 4;
+		if (LA_UNLIKELY(MACHINE().max_instructions() == 0))
+			return RETURN_VALUES();
+		UNCHECKED_JUMP();
+	}
+
 	INSTRUCTION(0, next_execute_segment)
 	{
 		// Helper function to change execute segment
diff --git a/lib/libloong/threaded_bytecode_array.hpp b/lib/libloong/threaded_bytecode_array.hpp
index 0340a6e..5588185 100644
--- a/lib/libloong/threaded_bytecode_array.hpp
+++ b/lib/libloong/threaded_bytecode_array.hpp
@@ -116,6 +116,7 @@ static constexpr void *computed_opcode[] = {
 	[LA64_BC_FUNCTION2] = &&execute_function_extended,
 	[LA64_BC_SYSCALL]   = &&la64_syscall,
 	[LA64_BC_SYSCALLIMM]= &&la64_syscall_imm,
+	[LA64_BC_SLOWPATH]  = &&execute_slowpath,
 	[LA64_BC_NOP]       = &&la64_nop,
 	[LA64_BC_STOP]      = &&la64_stop,
 #ifdef LA_BINARY_TRANSLATION
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index eb2b881..00fc086 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -125,6 +125,7 @@ namespace loongarch
 		LA64_BC_FUNCTION2,         // Extended generic handler (for > 255 handlers)
 		LA64_BC_SYSCALL,           // System call (needs special handling)
 		LA64_BC_SYSCALLIMM,        // System call with immediate number (most likely patched in)
+		LA64_BC_SLOWPATH,          // PC-modifying instruction executed by its generic handler
 		LA64_BC_NOP,               // No operation (DBAR, etc)
 		LA64_BC_STOP,              // Stop execution marker
 
@@ -247,6 +248,7 @@ namespace loongarch
 		case LA64_BC_FUNCTION2: return "FUNCTION";
 		case LA64_BC_SYSCALL: return "SYSCALL";
 		case LA64_BC_SYSCALLIMM: return "SYSCALL+IMM";
+		case LA64_BC_SLOWPATH: return "SLOWPATH";
 		case LA64_BC_NOP: return "NOP";
 		case LA64_BC_STOP: return "STOP";
 #ifdef LA_BINARY_TRANSLATION
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index e073e5f..2b1084d 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -105,6 +105,22 @@ INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	goto check_jump;
 }
 
+INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
+{
+	REGISTERS().pc = pc;
+	MACHINE().set_max_instructions(max_counter);
+	CPU().execute(la_instruction{DECODER().instr});
+	// Restore counters
+	max_counter = MACHINE().max_instructions();
+
+	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc))
+	{
+		pc = REGISTERS().pc + 4;
+		goto check_jump;
+	}
+	NEXT_BLOCK_UNCHECKED(4);
+}
+
 #ifdef LA_BINARY_TRANSLATION
 INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 {
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index c7a7772..2c91814 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -102,6 +102,22 @@ INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 	goto check_jump;
 }
 
+INSTRUCTION(LA64_BC_SLOWPATH, execute_slowpath)
+{
+	REGISTERS().pc = pc;
+	MACHINE().set_max_instructions(max_counter);
+	CPU().execute(la_instruction{DECODER().instr});
+	// Restore counters
+	max_counter = MACHINE().max_instructions();
+
+	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc))
+	{
+		pc = REGISTERS().pc + 4;
+		goto check_jump;
+	}
+	NEXT_BLOCK_UNCHECKED(4);
+}
+
 #ifdef LA_BINARY_TRANSLATION
 INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 {
-- 
2.43.0


From 6943b7e009cd3f7b6f3f949ee44005a684b41cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 17/87] fix: split blocks longer than the decoder cache can
 describe

---
 lib/libloong/decoder_cache.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 2bd62c0..7e4b442 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -233,6 +233,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		// This computes how many bytes until the next diverging instruction
 		const uint32_t* instr_ptr = reinterpret_cast<const uint32_t*>(code);
 		uint32_t accumulated_bytes = 0;
+		constexpr uint32_t max_block_bytes = UINT16_MAX & ~3u; // See DecoderData::block_bytes
 		std::unordered_map<typename DecoderData::handler_t, uint16_t> handler_map;
 		for (size_t i = num_instructions; i-- > 0; ) {
 			const uint32_t instr = instr_ptr[i];
@@ -264,6 +265,12 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				// Diverging instruction: block_bytes = 0
 				cache[i].block_bytes = 0;
 				accumulated_bytes = 0;
+			} else if (accumulated_bytes + 4 > max_block_bytes) {
+				// Longer than a block can be: end the block here
+				cache[i].bytecode = LA64_BC_SLOWPATH;
+				cache[i].instr = instr;
+				cache[i].block_bytes = 0;
+				accumulated_bytes = 0;
 			} else {
 				// Non-diverging: accumulate bytes to next diverge
 				accumulated_bytes += 4;
-- 
2.43.0


From 91669cd41b4c0bdeda2323b3de79c1841e3ba8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 18/87] fix: branches out of the execute segment are not
 illegal instructions

---
 lib/libloong/threaded_rewriter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 98fe91c..f377fe4 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -33,12 +33,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_B:
 		case LA64_BC_BL: {
 			const auto offset = InstructionHelpers::sign_extend_26(original.i26.offs()) << 2;
-			// This is a local branch, so it better be within the segment
+			// Branches within the segment are pre-computed
 			if (this->is_within(pc + offset)) {
 				// The offset is the optimized instruction
 				return (int32_t)offset;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				bytecode = LA64_BC_SLOWPATH;
 				return original.whole;
 			}
 		} break;
@@ -50,7 +50,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_BGEU: {
 			// These use ri16 format: rd, rj, offs16
 			const auto offset = InstructionHelpers::sign_extend_16(original.ri16.imm) << 2;
-			// Validate branch target
+			// Branches that leave the segment take the generic path
 			if (this->is_within(pc + offset)) {
 				auto fi = *(FasterLA64_RI16_Branch *)&instruction_bits;
 				fi.rd = original.ri16.rd;
@@ -58,7 +58,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				bytecode = LA64_BC_SLOWPATH;
 				return original.whole;
 			}
 		} break;
@@ -759,14 +759,14 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_BNEZ: {
 			// BEQZ/BNEZ use ri21 format: rj, offs21
 			const auto offset = InstructionHelpers::sign_extend_21(original.ri21.offs_lo, original.ri21.offs_hi) << 2;
-			// Check if branch target is within segment
+			// Branches that leave the segment take the generic path
 			if (this->is_within(pc + offset)) {
 				auto fi = *(FasterLA64_RI21_Branch *)&instruction_bits;
 				fi.rj = original.ri21.rj;
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				bytecode = LA64_BC_SLOWPATH;
 				return original.whole;
 			}
 		} break;
@@ -774,14 +774,14 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_BCNEZ: {
 			// BCEQZ/BCNEZ use bits[7:5] for condition flag (cj), offs21 for offset
 			const auto offset = InstructionHelpers::sign_extend_21(original.ri21.offs_lo, original.ri21.offs_hi) << 2;
-			// Check if branch target is within segment
+			// Branches that leave the segment take the generic path
 			if (this->is_within(pc + offset)) {
 				auto fi = *(FasterLA64_RI21_Branch *)&instruction_bits;
 				fi.rj = (original.whole >> 5) & 0x7; // Extract cj from bits[7:5]
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				bytecode = LA64_BC_SLOWPATH;
 				return original.whole;
 			}
 		} break;
-- 
2.43.0


From a6ca48b8e50901c4d4eb19920f9cbff1528800bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 19/87] fix: PCADDU18I forms a 64-bit offset

---
 lib/libloong/la_instr_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 633fa00..9f21e2d 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -573,7 +573,7 @@ struct InstrImpl {
 
 	static void PCADDU18I(cpu_t& cpu, la_instruction instr) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = int64_t(si20) * (int64_t(1) << 18);
 		cpu.reg(instr.ri20.rd) = cpu.pc() + offset;
 	}
 
-- 
2.43.0


From 0b34d8716cb2f0e23f1e9e241d904f16f6eb1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 20/87] fix: BCEQZ and BCNEZ use the full 21-bit offset in the
 simulator

---
 lib/libloong/la_instr_impl.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 9f21e2d..85b73fd 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3039,11 +3039,7 @@ struct InstrImpl {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		// Sign extend
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		const int32_t offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) != 0) {
 			cpu.increment_pc(offset-4);
@@ -3053,10 +3049,7 @@ struct InstrImpl {
 	static void BCEQZ(cpu_t& cpu, la_instruction instr) {
 		// BCEQZ: Branch if condition flag equals zero
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		const int32_t offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) == 0) {
 			cpu.increment_pc(offset-4);
-- 
2.43.0


From 769e3f9bf2a595f3a5257bc2234fd076d800e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 21/87] fix: jumps to misaligned addresses raise
 MISALIGNED_INSTRUCTION

---
 lib/libloong/cpu.cpp                          | 2 ++
 lib/libloong/threaded_dispatch.cpp            | 4 ++++
 lib/libloong/threaded_inaccurate_dispatch.cpp | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index f654a0a..692815b 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -149,6 +149,8 @@ namespace loongarch
 
 	void CPU::step_one(bool use_instruction_counter)
 	{
+		if (LA_UNLIKELY(pc() & 0x3))
+			trigger_exception(MISALIGNED_INSTRUCTION, pc());
 		auto instr = read_current_instruction();
 		execute(instr);
 		increment_pc(4);
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 2b1084d..5449154 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -57,6 +57,10 @@ namespace loongarch
 			goto new_execute_segment;
 
 continue_segment:
+		if (LA_UNLIKELY(pc & 0x3)) {
+			m_regs.pc = pc;
+			trigger_exception(MISALIGNED_INSTRUCTION, pc);
+		}
 		decoder = &exec_decoder[pc >> DecoderCache::SHIFT];
 
 		pc += decoder->block_bytes;
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index 2c91814..d6532b4 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -56,6 +56,10 @@ namespace loongarch
 			goto new_execute_segment;
 
 continue_segment:
+		if (LA_UNLIKELY(pc & 0x3)) {
+			m_regs.pc = pc;
+			trigger_exception(MISALIGNED_INSTRUCTION, pc);
+		}
 		decoder = &exec_decoder[pc >> DecoderCache::SHIFT];
 
 		if constexpr (TRACE_DISPATCH) {
-- 
2.43.0


From fe2f96f65080b2e537d8f90015d7a8cde3975937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 22/87] fix: implement the remaining FCMP conditions

---
 lib/libloong/la_instr_impl.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 85b73fd..c72efdf 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -913,6 +913,10 @@ struct InstrImpl {
 		bool result = false;
 
 		switch (cond) {
+			case 0x00: // CAF - (Quiet) Always False
+			case 0x01: // SAF - Signaling Always False
+				result = false;
+				break;
 			case 0x02: // CLT - (Quiet) Less Than (ordered)
 			case 0x03: // SLT - Signaling Less Than (ordered)
 				result = !is_unordered && (fj_val < fk_val);
@@ -929,11 +933,20 @@ struct InstrImpl {
 			case 0x9:  // SUN  - Signaling Incomparable
 				result = is_unordered;
 				break;
+			case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+			case 0x0D: // SUEQ - Signaling Unordered or Equal
+				result = is_unordered || (fj_val == fk_val);
+				break;
 			case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
 			case 0x0F: // SULE - Signaling Unordered or Less or Equal
 				result = is_unordered || (fj_val <= fk_val);
 				break;
+			case 0x10: // CNE - (Quiet) Not Equal (ordered)
+			case 0x11: // SNE - Signaling Not Equal (ordered)
+				result = !is_unordered && (fj_val != fk_val);
+				break;
 			case 0x14: // COR - (Quiet) Ordered
+			case 0x15: // SOR - Signaling Ordered
 				result = !is_unordered;
 				break;
 			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
@@ -970,6 +983,10 @@ struct InstrImpl {
 		bool result = false;
 
 		switch (cond) {
+			case 0x00: // CAF - (Quiet) Always False
+			case 0x01: // SAF - Signaling Always False
+				result = false;
+				break;
 			case 0x02: // CLT - (Quiet) Less Than (ordered)
 			case 0x03: // SLT - Signaling Less Than (ordered)
 				result = !is_unordered && (fj_val < fk_val);
@@ -986,11 +1003,20 @@ struct InstrImpl {
 			case 0x9:  // SUN  - Signaling Incomparable
 				result = is_unordered;
 				break;
+			case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+			case 0x0D: // SUEQ - Signaling Unordered or Equal
+				result = is_unordered || (fj_val == fk_val);
+				break;
 			case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
 			case 0x0F: // SULE - Signaling Unordered or Less or Equal
 				result = is_unordered || (fj_val <= fk_val);
 				break;
+			case 0x10: // CNE - (Quiet) Not Equal (ordered)
+			case 0x11: // SNE - Signaling Not Equal (ordered)
+				result = !is_unordered && (fj_val != fk_val);
+				break;
 			case 0x14: // COR - (Quiet) Ordered
+			case 0x15: // SOR - Signaling Ordered
 				result = !is_unordered;
 				break;
 			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-- 
2.43.0


From 47e6b2ecca246eb2a931896c9e037d25961932f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 23/87] fix: report stops by the instruction limit as such, and
 finished runs as finished

---
 lib/libloong/debug.cpp             | 2 +-
 lib/libloong/machine.hpp           | 2 +-
 lib/libloong/tailcall_dispatch.cpp | 2 +-
 lib/libloong/threaded_dispatch.cpp | 3 +++
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 4d708d4..cf38004 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -9,7 +9,7 @@ namespace loongarch
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
 		this->machine.set_max_instructions(max_instructions);
-		while (!this->machine.stopped()) {
+		while (!this->machine.stopped() && !this->machine.instruction_limit_reached()) {
 			if (this->verbose_instructions)
 				print_instruction();
 			this->machine.cpu.step_one();
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 5ad2615..474f91e 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -55,7 +55,7 @@ namespace loongarch
 		bool simulate(uint64_t max_instructions = UINT64_MAX, uint64_t counter = 0);
 
 		void stop() noexcept { m_max_instructions = 0; }
-		bool stopped() const noexcept { return m_counter >= m_max_instructions; }
+		bool stopped() const noexcept { return m_max_instructions == 0; }
 		bool instruction_limit_reached() const noexcept { return m_counter >= m_max_instructions && m_max_instructions != 0; }
 
 		// Instruction counting
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index cdbed7e..e9d2745 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -227,7 +227,7 @@ namespace loongarch
 		const address_t new_pc = EXECUTE_INSTR();
 
 		cpu.registers().pc = new_pc;
-		MACHINE().set_instruction_counter(counter.value());
+		counter.apply(MACHINE());
 
 		// Machine stopped normally?
 		return counter.max() == 0;
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 5449154..0644706 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -154,6 +154,7 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
 	REGISTERS().pc = pc + 4;
 	machine().set_instruction_counter(counter);
+	machine().stop();
 	return true;
 }
 
@@ -188,6 +189,8 @@ new_execute_segment:
 stop_execution:
 		m_regs.pc = pc;
 		machine().set_instruction_counter(counter);
+		// Make the reason for stopping visible: the limit, or zero when stopped
+		machine().set_max_instructions(max_counter);
 		if (machine().has_current_exception()) {
 			const auto ex = machine().current_exception();
 			machine().clear_current_exception();
-- 
2.43.0


From 9d64dde28899ef97a6cc9efb641cc1df3b65d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 24/87] fix: preempt with stored registers keeps the
 interrupted program's stack and limits

---
 lib/libloong/machine_vmcall.hpp | 56 +++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 68185a1..78bead8 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -28,17 +28,15 @@ namespace loongarch
 		return stack_push(sp, &value, sizeof(T));
 	}
 
-	// Setup call arguments according to LoongArch calling convention
+	// Setup call arguments according to LoongArch calling convention,
+	// using the stack below the given (16-byte aligned) stack pointer
 	template <typename... Args> constexpr
-	inline void setup_call(Machine& machine, address_t exit_addr, Args&&... args)
+	inline void setup_call_at(Machine& machine, address_t sp, address_t exit_addr, Args&&... args)
 	{		auto& cpu = machine.cpu;
 
 		// Set return address to exit function
 		cpu.reg(REG_RA) = exit_addr;
 
-		// Reset stack pointer to initial position
-		address_t sp = machine.memory.stack_address();
-
 		// Initialize argument registers
 		int iarg = REG_A0; // Integer argument registers: A0-A7
 		int farg = 0;      // Floating-point argument registers: FA0-FA7
@@ -97,6 +95,13 @@ namespace loongarch
 		cpu.reg(REG_SP) = sp;
 	}
 
+	// Setup call arguments from the initial stack position
+	template <typename... Args> constexpr
+	inline void setup_call(Machine& machine, address_t exit_addr, Args&&... args)
+	{
+		setup_call_at(machine, machine.memory.stack_address(), exit_addr, std::forward<Args>(args)...);
+	}
+
 	// vmcall: Call a guest function at a specific address
 	template <typename Ret, uint64_t MAX_INSTRUCTIONS, typename... Args>
 	inline Ret Machine::vmcall(address_t func_addr, Args&&... args)
@@ -181,32 +186,49 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Optionally save CPU registers
+		// Optionally save CPU registers and execution limits
 		Registers saved_regs;
+		const uint64_t saved_counter = this->m_counter;
+		const uint64_t saved_max_instructions = this->m_max_instructions;
 		if constexpr (StoreRegs) {
 			saved_regs = cpu.registers();
 		}
 
-		// Allocate 16 bytes on stack for execution context
-		cpu.reg(REG_SP) -= 16;
-
-		// Setup the call
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
-		cpu.registers().pc = func_addr;
+		const auto restore = [&] {
+			cpu.registers() = saved_regs;
+			this->m_counter = saved_counter;
+			this->m_max_instructions = saved_max_instructions;
+		};
+
+		try {
+			// Setup the call
+			if constexpr (StoreRegs) {
+				// Stay below the stack of the interrupted program
+				const address_t sp = (cpu.reg(REG_SP) - 16) & ~address_t(0xF);
+				setup_call_at(*this, sp, exit_addr, std::forward<Args>(args)...);
+			} else {
+				setup_call(*this, exit_addr, std::forward<Args>(args)...);
+			}
+			cpu.registers().pc = func_addr;
 
-		// Execute with instruction limit
-		this->simulate(max_instr, 0);
+			// Execute with instruction limit
+			this->simulate(max_instr, 0);
+		} catch (...) {
+			if constexpr (StoreRegs) restore();
+			throw;
+		}
+		const bool limit_reached = this->instruction_limit_reached();
 
-		// Restore registers if needed
+		// Restore registers and limits if needed
 		if constexpr (StoreRegs) {
 			// Keep return value in A0
 			const address_t retval = cpu.reg(REG_A0);
-			cpu.registers() = saved_regs;
+			restore();
 			cpu.reg(REG_A0) = retval;
 		}
 
 		if constexpr (Throw) {
-			if (this->instruction_limit_reached()) {
+			if (limit_reached) {
 				throw MachineException(MACHINE_TIMEOUT,
 					"preempt: Instruction limit reached", func_addr);
 			}
-- 
2.43.0


From 88a18c875b310d5414e50a688735c9804a7acc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 25/87] fix: vmcall passes arguments beyond the registers on
 the stack

---
 lib/libloong/machine_vmcall.hpp | 46 ++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 78bead8..22f3158 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -41,6 +41,16 @@ namespace loongarch
 		int iarg = REG_A0; // Integer argument registers: A0-A7
 		int farg = 0;      // Floating-point argument registers: FA0-FA7
 
+		// Integer arguments that don't fit in registers go on the stack
+		address_t stack_args[sizeof...(Args) + 1];
+		size_t stack_arg_count = 0;
+		auto put_int = [&](address_t value) {
+			if (iarg <= REG_A7)
+				cpu.reg(iarg++) = value;
+			else
+				stack_args[stack_arg_count++] = value;
+		};
+
 		// Process each argument
 		// Note: We avoid complex operations in the fold expression to keep it constexpr-friendly
 		([&] {
@@ -48,42 +58,57 @@ namespace loongarch
 
 			if constexpr (std::is_same_v<T, std::string>) {
 				// std::string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args.c_str(), args.length() + 1);
+				put_int(machine.stack_push(sp, args.c_str(), args.length() + 1));
 			}
 			else if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*>) {
 				// C-string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args, std::strlen(args) + 1);
+				put_int(machine.stack_push(sp, args, std::strlen(args) + 1));
 			}
 			else if constexpr (std::is_same_v<T, GuestStdString>) {
 				// GuestStdString: Adjust SSO pointer and push onto stack
 				args.move(sp - sizeof(T)); // SSO-adjustment
-				cpu.reg(iarg++) = machine.stack_push(sp, &args, sizeof(T));
+				put_int(machine.stack_push(sp, &args, sizeof(T)));
 			}
 			else if constexpr (is_scoped_guest_object<T>::value) {
 				// ScopedArenaObject: Pass the guest address directly
-				cpu.reg(iarg++) = args.address();
+				put_int(args.address());
 			}
 			else if constexpr (std::is_integral_v<T>) {
 				// Integer types go to integer registers (A0-A7)
-				cpu.reg(iarg++) = static_cast<address_t>(args);
+				put_int(static_cast<address_t>(args));
 			}
 			else if constexpr (std::is_floating_point_v<T>) {
 				// Floating-point types go to FP registers (FA0-FA7)
+				// and then to the remaining integer argument slots
 				if constexpr (sizeof(T) == 4) {
-					cpu.registers().getfl32(farg++) = static_cast<float>(args);
+					if (farg < 8) {
+						cpu.registers().getfl32(farg++) = static_cast<float>(args);
+					} else {
+						const float value = static_cast<float>(args);
+						uint32_t bits;
+						std::memcpy(&bits, &value, sizeof(bits));
+						put_int(bits);
+					}
 				} else if constexpr (sizeof(T) == 8) {
-					cpu.registers().getfl64(farg++) = static_cast<double>(args);
+					if (farg < 8) {
+						cpu.registers().getfl64(farg++) = static_cast<double>(args);
+					} else {
+						const double value = static_cast<double>(args);
+						address_t bits;
+						std::memcpy(&bits, &value, sizeof(bits));
+						put_int(bits);
+					}
 				}
 			}
 			else if constexpr (std::is_enum_v<T>) {
 				// Enums are treated as their underlying integer type
 				using UnderlyingType = std::underlying_type_t<T>;
-				cpu.reg(iarg++) = static_cast<address_t>(static_cast<UnderlyingType>(args));
+				put_int(static_cast<address_t>(static_cast<UnderlyingType>(args)));
 			}
 			else if constexpr (std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>) {
 				// Standard layout structs: Push onto stack, pass pointer as integer
 				const address_t struct_addr = machine.stack_push(sp, args);
-				cpu.reg(iarg++) = struct_addr;
+				put_int(struct_addr);
 			}
 			else {
 				static_assert(sizeof(T) == 0, "Unsupported argument type for vmcall. Use integers, floats, enums, strings, or standard-layout structs.");
@@ -92,6 +117,9 @@ namespace loongarch
 
 		// Align stack pointer to 16-byte boundary
 		sp &= ~address_t(0xF);
+		// Arguments beyond the registers are passed at the stack pointer
+		if (stack_arg_count > 0)
+			machine.stack_push(sp, stack_args, stack_arg_count * sizeof(address_t));
 		cpu.reg(REG_SP) = sp;
 	}
 
-- 
2.43.0


From a56a2cc1f7d35be166c3b64c595e3ddc4acba69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 26/87] fix: vmcall sign-extends unsigned 32-bit integer
 arguments

---
 lib/libloong/machine_vmcall.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 22f3158..a9fbd7d 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -32,7 +32,8 @@ namespace loongarch
 	// using the stack below the given (16-byte aligned) stack pointer
 	template <typename... Args> constexpr
 	inline void setup_call_at(Machine& machine, address_t sp, address_t exit_addr, Args&&... args)
-	{		auto& cpu = machine.cpu;
+	{
+		auto& cpu = machine.cpu;
 
 		// Set return address to exit function
 		cpu.reg(REG_RA) = exit_addr;
@@ -41,6 +42,14 @@ namespace loongarch
 		int iarg = REG_A0; // Integer argument registers: A0-A7
 		int farg = 0;      // Floating-point argument registers: FA0-FA7
 
+		// The calling convention sign-extends 32-bit integers, signed or not
+		auto extend = [](auto value) -> address_t {
+			if constexpr (sizeof(value) == sizeof(int32_t))
+				return static_cast<address_t>(static_cast<int32_t>(value));
+			else
+				return static_cast<address_t>(value);
+		};
+
 		// Integer arguments that don't fit in registers go on the stack
 		address_t stack_args[sizeof...(Args) + 1];
 		size_t stack_arg_count = 0;
@@ -75,7 +84,7 @@ namespace loongarch
 			}
 			else if constexpr (std::is_integral_v<T>) {
 				// Integer types go to integer registers (A0-A7)
-				put_int(static_cast<address_t>(args));
+				put_int(extend(args));
 			}
 			else if constexpr (std::is_floating_point_v<T>) {
 				// Floating-point types go to FP registers (FA0-FA7)
@@ -103,7 +112,7 @@ namespace loongarch
 			else if constexpr (std::is_enum_v<T>) {
 				// Enums are treated as their underlying integer type
 				using UnderlyingType = std::underlying_type_t<T>;
-				put_int(static_cast<address_t>(static_cast<UnderlyingType>(args)));
+				put_int(extend(static_cast<UnderlyingType>(args)));
 			}
 			else if constexpr (std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>) {
 				// Standard layout structs: Push onto stack, pass pointer as integer
-- 
2.43.0


From da57837b4434eb205947d46c16cc61834d858f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 27/87] fix: system call numbers beyond 32 bits are unknown
 system calls

---
 lib/libloong/la_instr_impl.hpp  | 3 +--
 lib/libloong/machine.hpp        | 2 +-
 lib/libloong/machine_inline.hpp | 4 ++--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index c72efdf..7eff56d 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -651,8 +651,7 @@ struct InstrImpl {
 
 	static void SYSCALL(cpu_t& cpu, la_instruction instr) {
 		(void)instr;
-		const int syscall_nr = static_cast<uint32_t>(cpu.reg(REG_A7));
-		cpu.machine().system_call(syscall_nr);
+		cpu.machine().system_call(cpu.reg(REG_A7));
 	}
 
 	static void BREAK(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 474f91e..d40eb95 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -71,7 +71,7 @@ namespace loongarch
 		static void set_unknown_syscall_handler(unknown_syscall_t* handler);
 		static syscall_t** get_syscall_handlers();
 		static unknown_syscall_t* get_unknown_syscall_handler();
-		void system_call(unsigned sysnum);
+		void system_call(address_t sysnum);
 		void unchecked_system_call(unsigned sysnum);
 		template <typename T = address_t>
 		void set_result(const T& value);
diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index a09c5d3..27439e8 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -9,7 +9,7 @@ namespace loongarch
 		return cpu.simulate(cpu.pc(), counter, max_instructions);
 	}
 
-	inline void Machine::system_call(unsigned syscall_number)
+	inline void Machine::system_call(address_t syscall_number)
 	{
 		if (syscall_number < m_syscall_handlers.size()) {
 			auto* handler = m_syscall_handlers[syscall_number];
@@ -17,7 +17,7 @@ namespace loongarch
 			return;
 		}
 		// Call unknown syscall handler if registered
-		m_unknown_syscall_handler(*this, syscall_number);
+		m_unknown_syscall_handler(*this, static_cast<int>(syscall_number));
 	}
 
 	inline void Machine::unchecked_system_call(unsigned syscall_number)
-- 
2.43.0


From d4c162a340d39e81fd7556486c868ef9e469bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 28/87] fix: host memory accesses check the whole range

---
 lib/libloong/memory.cpp        |  8 +++++---
 lib/libloong/memory.hpp        |  7 +++++++
 lib/libloong/memory_inline.hpp |  4 ++--
 lib/libloong/memory_rw.cpp     | 12 ++++++------
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index dd289d8..aabb658 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -262,9 +262,11 @@ void Memory::process_rela_section(size_t offset, size_t size, const MachineOptio
 
 size_t Memory::strlen(address_t addr, size_t maxlen) const
 {
-	const address_t end_addr = std::min(addr + maxlen, m_arena_size);
-	if (end_addr <= addr) return 0;
-	const address_t size = end_addr - addr;
+	if (maxlen == 0) return 0;
+	if (addr >= m_arena_size) {
+		protection_fault(addr, "Read from unmapped memory");
+	}
+	const size_t size = std::min(maxlen, size_t(m_arena_size - addr));
 	const char* ptr = memarray<char>(addr, size);
 	return ::strnlen(ptr, size);
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8216215..d9ca514 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -151,6 +151,13 @@ namespace loongarch
 		inline bool is_writable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
 			return addr - m_data_start < m_arena_end_sub_data;
 		}
+		// Range checks for accesses of any length
+		inline bool is_readable_range(address_t addr, size_t size) const noexcept {
+			return addr >= m_rodata_start && addr <= m_arena_size && size <= m_arena_size - addr;
+		}
+		inline bool is_writable_range(address_t addr, size_t size) const noexcept {
+			return addr >= m_data_start && addr <= m_arena_size && size <= m_arena_size - addr;
+		}
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
 	};
 
diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index b147ff9..207ac54 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -44,7 +44,7 @@ inline void Memory::write(address_t addr, T value)
 template <typename T>
 inline const T* Memory::memarray(address_t addr, size_t count) const
 {
-	if (LA_UNLIKELY(!is_readable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_readable_range(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
 	}
 
@@ -54,7 +54,7 @@ inline const T* Memory::memarray(address_t addr, size_t count) const
 template <typename T>
 inline T* Memory::writable_memarray(address_t addr, size_t count)
 {
-	if (LA_UNLIKELY(!is_writable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_writable_range(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Write to read-only memory", addr);
 	}
 
diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index aff9036..d808c46 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -15,7 +15,7 @@ namespace loongarch
 			if (LA_UNLIKELY(dest + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 			}
-		} else if (LA_UNLIKELY(!is_writable(dest, len))) {
+		} else if (LA_UNLIKELY(!is_writable_range(dest, len))) {
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
@@ -33,7 +33,7 @@ namespace loongarch
 			if (LA_UNLIKELY(src + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Read from out-of-bounds memory", src);
 			}
-		} else if (LA_UNLIKELY(src < m_rodata_start || src + len >= m_arena_size)) {
+		} else if (LA_UNLIKELY(!is_readable_range(src, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
@@ -42,7 +42,7 @@ namespace loongarch
 
 	void Memory::memset(address_t dest, uint8_t value, size_t len)
 	{
-		if (LA_UNLIKELY(!is_writable(dest, len))) {
+		if (LA_UNLIKELY(!is_writable_range(dest, len))) {
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
@@ -51,10 +51,10 @@ namespace loongarch
 
 	int Memory::memcmp(address_t addr1, address_t addr2, size_t len) const
 	{
-		if (LA_UNLIKELY(addr1 < m_rodata_start || addr1 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable_range(addr1, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr1);
 		}
-		if (LA_UNLIKELY(addr2 < m_rodata_start || addr2 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable_range(addr2, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr2);
 		}
 
@@ -68,7 +68,7 @@ namespace loongarch
 
 	void Memory::copy_into_arena_unsafe(address_t dest, const void* src, size_t len)
 	{
-		if (LA_UNLIKELY(dest + len >= m_arena_size)) {
+		if (LA_UNLIKELY(dest > m_arena_size || len > m_arena_size - dest)) {
 			throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 		}
 		std::memcpy(&m_arena[dest], src, len);
-- 
2.43.0


From d43c3e4e92a251202c78cab2097c5fe7728e19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 29/87] fix: mappings stay inside the arena, disjoint and
 zeroed

---
 lib/libloong/elf_loader.cpp     |  3 ++-
 lib/libloong/linux/syscalls.cpp | 45 ++++++++++++++++++++-------------
 lib/libloong/memory.cpp         | 18 ++++++++++---
 lib/libloong/memory.hpp         |  3 +++
 4 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5fa7e69..49c0396 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -163,8 +163,9 @@ void Memory::binary_loader(const MachineOptions& options)
 	// m_stack_address is the TOP of the stack (highest address)
 	const address_t stack_base = this->mmap_allocate(options.stack_size);
 	this->m_stack_address = stack_base + options.stack_size;
+	this->m_mmap_start = this->m_mmap_address;
 
-	if (this->m_heap_address >= options.memory_max) {
+	if (this->m_mmap_address > options.memory_max) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
 			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)this->m_heap_address);
diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1780252..e1d618f 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -13,6 +13,7 @@ namespace loongarch
 	static constexpr int64_t LA_ENOENT = 2;
 	static constexpr int64_t LA_EBADF = 9;
 	static constexpr int64_t LA_EINVAL = 22;
+	static constexpr int64_t LA_ENOMEM = 12;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOTTY = 25;
 
@@ -592,30 +593,38 @@ namespace loongarch
 		auto [addr, length, prot, flags, fd, offset] =
 			machine.template sysargs<address_t, size_t, int, int, int, off_t>();
 
+		auto& memory = machine.memory;
+		// Memory left above the mmap region
+		const size_t remaining = memory.arena_size() - std::min(memory.mmap_address(), memory.arena_size());
+
 		// Simple implementation: allocate memory from our heap
-		if (addr == 0) {
-			// Anonymous mapping - allocate new memory
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if ((flags & 0x10) == 0x0) {
-			// no fixed flag - force into new allocation
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if (addr < machine.memory.mmap_address()) {
-			// It's within the mmap region - allow
-			machine.set_result(addr);
+		if (length == 0) {
+			machine.set_result(-LA_EINVAL);
+		} else if (addr == 0 || (flags & 0x10) == 0x0) {
+			// Anonymous mapping, or no fixed flag - force into new allocation
+			if (length > remaining || ((length + 4095) & ~size_t(4095)) > remaining)
+				machine.set_result(-LA_ENOMEM);
+			else
+				machine.set_result(memory.mmap_allocate(length));
+		} else if (addr >= memory.mmap_start() && addr < memory.mmap_address() && (addr & 4095) == 0) {
+			// It's within the mmap region - allow, but it may need to grow
+			const size_t inside = std::min(length, size_t(memory.mmap_address() - addr));
+			const size_t growth = length - inside;
+			if (growth > remaining || ((growth + 4095) & ~size_t(4095)) > remaining) {
+				machine.set_result(-LA_ENOMEM);
+			} else {
+				// Anonymous mapping: zero out the memory
+				if (flags & 0x20) // MAP_ANONYMOUS
+					memory.memset(addr, 0, inside);
+				if (growth > 0)
+					memory.mmap_allocate(growth);
+				machine.set_result(addr);
+			}
 		} else {
 			// Fixed address mapping not supported for now
 			machine.set_result(-1);
 		}
 
-		// Anonymous mapping: zero out the memory
-		if (false && machine.template return_value<address_t>() != static_cast<address_t>(-1)) {
-			if (flags & 0x20) { // MAP_ANONYMOUS
-				machine.memory.memset(machine.template return_value<address_t>(), 0, length);
-			}
-		}
-
 		sysprint(machine, "mmap(addr=0x%llx, len=%llu, prot=0x%x, flags=0x%x, fd=%d, offset=%llu) = 0x%llx\n",
 			static_cast<uint64_t>(addr), static_cast<uint64_t>(length), prot, flags, fd,
 			static_cast<uint64_t>(offset),
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index aabb658..0ac94cb 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -286,16 +286,28 @@ std::string_view Memory::memview(address_t addr, size_t len) const
 
 address_t Memory::mmap_allocate(size_t size)
 {
-	size = (size + 4095) & ~size_t(4095); // Align to page size
+	const size_t aligned = (size + 4095) & ~size_t(4095); // Align to page size
 	const address_t result = this->m_mmap_address;
-	this->m_mmap_address += size;
+	const address_t end = result + aligned;
+	// The arena is not allocated yet when the loader decides the layout
+	if (aligned < size || end < result || (m_arena != nullptr && end > m_arena_size)) {
+		throw MachineException(OUT_OF_MEMORY, "Not enough memory for mapping", size);
+	}
+	this->m_mmap_address = end;
+	// Memory that was in use before is handed out zeroed
+	if (m_arena != nullptr && result < m_mmap_highest) {
+		std::memset(&m_arena[result], 0, std::min(end, m_mmap_highest) - result);
+	}
+	this->m_mmap_highest = std::max(m_mmap_highest, end);
 	return result;
 }
 
 void Memory::mmap_deallocate(address_t addr, size_t size)
 {
 	// Allow relaxation of mmap area by moving m_mmap_address back
-	if (addr + size == this->m_mmap_address) {
+	size = (size + 4095) & ~size_t(4095);
+	if (addr >= this->m_mmap_start && addr < this->m_mmap_address && (addr & 4095) == 0 &&
+		size == this->m_mmap_address - addr) {
 		this->m_mmap_address = addr;
 	}
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index d9ca514..d0ee23b 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -78,6 +78,7 @@ namespace loongarch
 		address_t brk_address() const noexcept { return m_brk_address; }
 		void set_brk_address(address_t addr) noexcept { m_brk_address = addr; }
 		address_t mmap_address() const noexcept { return m_mmap_address; }
+		address_t mmap_start() const noexcept { return m_mmap_start; }
 
 		// Statistics
 		size_t memory_usage_counter() const noexcept { return m_arena_size; }
@@ -122,6 +123,8 @@ namespace loongarch
 		address_t m_heap_address = 0;
 		address_t m_brk_address = 0;
 		address_t m_mmap_address = 0;
+		address_t m_mmap_start = 0;   // First address after heap, brk and stack
+		address_t m_mmap_highest = 0; // Memory from here on was never handed out
 
 		// ELF header information for auxv
 		address_t m_elf_phdr_addr = 0;
-- 
2.43.0


From 0c27d8bb99e533040f07612a4d446aaa2a9c64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 30/87] fix: write and writev print whole buffers and report
 bad descriptors

---
 lib/libloong/linux/syscalls.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index e1d618f..537e0d4 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -93,7 +93,7 @@ namespace loongarch
 			machine.print(view, len);
 			machine.set_result(len);
 		} else {
-			machine.set_result(-1);
+			machine.set_result(-LA_EBADF);
 		}
 		sysprint(machine, "write(fd=%d, buf=0x%llx, count=%llu) = %d\n",
 			fd,
@@ -119,8 +119,7 @@ namespace loongarch
 				auto base = machine.memory.template read<address_t>(iovec_offset);
 				auto len = machine.memory.template read<address_t>(iovec_offset + sizeof(address_t));
 
-				// Sanity check on length
-				if (len > 0 && len < 1024 * 1024) {
+				if (len > 0) {
 					const char* view = machine.memory.template memarray<char>(base, len);
 					machine.print(view, len);
 					total += len;
@@ -128,7 +127,7 @@ namespace loongarch
 			}
 			machine.set_result(total);
 		} else {
-			machine.set_result(-1);
+			machine.set_result(-LA_EBADF);
 		}
 		sysprint(machine, "writev(fd=%d, iov=0x%llx, iovcnt=%llu) = %d\n",
 			fd,
-- 
2.43.0


From bbaa58ad99fdbf8513bd52fdca31c03e66b22484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 31/87] fix: system calls fault before writing any part of a
 guest buffer

---
 lib/libloong/linux/syscalls.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 537e0d4..155eb3d 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -185,9 +185,7 @@ namespace loongarch
 		// Only support stdio descriptors
 		if (fd >= 0 && fd <= 2 && statbuf != 0) {
 			// Zero out the stat buffer (simplified)
-			for (size_t i = 0; i < 128; i++) {
-				machine.memory.template write<uint8_t>(statbuf + i, 0);
-			}
+			machine.memory.memset(statbuf, 0, 128);
 			machine.set_result(0);
 			return;
 		}
@@ -538,8 +536,9 @@ namespace loongarch
 		// int flags = machine.cpu.reg(REG_A2);
 
 		// Fill buffer with pseudo-random data
+		uint8_t* buf = machine.memory.template writable_memarray<uint8_t>(buf_addr, buflen);
 		for (size_t i = 0; i < buflen; i++) {
-			machine.memory.template write<uint8_t>(buf_addr + i, static_cast<uint8_t>(i * 17 + 31));
+			buf[i] = static_cast<uint8_t>(i * 17 + 31);
 		}
 
 		machine.set_result(buflen);
@@ -574,8 +573,8 @@ namespace loongarch
 					break;
 			}
 
-			machine.memory.template write<uint64_t>(old_limit, soft_limit);
-			machine.memory.template write<uint64_t>(old_limit + 8, hard_limit);
+			const uint64_t limits[2] = { soft_limit, hard_limit };
+			machine.memory.copy_to_guest(old_limit, limits, sizeof(limits));
 		}
 
 		machine.set_result(0);  // Success
-- 
2.43.0


From 9d9459e008caf92b435f939e25c519de9b18ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 32/87] fix: clock_gettime of an unknown clock fails instead of
 leaking host stack

---
 lib/libloong/linux/syscalls.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 155eb3d..d89dcbf 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -237,7 +237,10 @@ namespace loongarch
 			machine.template sysargs<int, address_t>();
 		if (tp != 0) {
 			struct timespec ts;
-			clock_gettime(clockid, &ts);
+			if (clock_gettime(clockid, &ts) != 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
 		}
 		machine.set_result(0);
-- 
2.43.0


From 0a8222449433e76b6e9507e7cba3bb6f2e0b95f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 33/87] fix: ppoll returns the number of ready descriptors

---
 lib/libloong/linux/syscalls.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index d89dcbf..2902af4 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -697,6 +697,7 @@ namespace loongarch
 			short revents;
 		};
 		vpollfd* fds = machine.memory.template writable_memarray<vpollfd>(fds_addr, nfds);
+		size_t ready = 0;
 		for (size_t i = 0; i < nfds; i++) {
 			const int fd = fds[i].fd;
 			// Only handle stdio fds
@@ -704,13 +705,14 @@ namespace loongarch
 				// Set revents to match events (ready)
 				auto events = fds[i].events;
 				fds[i].revents = events;
+				if (events != 0) ready++;
 			} else {
 				// Clear revents for other fds
 				fds[i].revents = 0;
 			}
 		}
-		// Mark stdio as ready (stub)
-		machine.set_result(0);
+		// The number of ready descriptors
+		machine.set_result(ready);
 	}
 
 	void Machine::setup_linux_syscalls()
-- 
2.43.0


From 1505fbfc99797ea1f3ec467733b81539b072d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 34/87] fix: signal actions are stored and reported as set,
 handlers get their signal

---
 lib/libloong/linux/syscalls.cpp | 33 ++++++++++++++++++---------------
 lib/libloong/posix/signals.cpp  | 14 ++++++++------
 lib/libloong/posix/signals.hpp  |  7 +++++--
 3 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 2902af4..46c7827 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -351,15 +351,17 @@ namespace loongarch
 		const auto old_ss = machine.sysarg(1);
 
 		auto& stack = machine.signals().per_thread(machine.gettid()).stack;
+		auto new_stack = stack;
 
+		// Read new stack if provided (both may be the same address)
+		if (ss != 0x0) {
+			machine.memory.copy_from_guest(&new_stack, ss, sizeof(new_stack));
+		}
 		// Return old stack if requested
 		if (old_ss != 0x0) {
 			machine.memory.copy_to_guest(old_ss, &stack, sizeof(stack));
 		}
-		// Set new stack if provided
-		if (ss != 0x0) {
-			machine.memory.copy_from_guest(&stack, ss, sizeof(stack));
-		}
+		stack = new_stack;
 		machine.set_result(0);
 		sysprint(machine, "sigaltstack(ss=0x%llx, old_ss=0x%llx) = 0\n",
 			static_cast<uint64_t>(ss), static_cast<uint64_t>(old_ss));
@@ -373,28 +375,31 @@ namespace loongarch
 
 		auto& sigact = machine.sigaction(sig);
 
-		// Kernel sigaction structure (64-bit)
+		// Kernel sigaction structure (64-bit, LoongArch has no restorer)
 		struct kernel_sigaction {
 			address_t sa_handler;
 			address_t sa_flags;
-			address_t sa_restorer;
 			address_t sa_mask;
 		};
 
 		kernel_sigaction sa{};
+		kernel_sigaction old{};
+		old.sa_handler = (sigact.handler == SignalAction::SIG_UNSET) ? 0x0 : sigact.handler;
+		old.sa_flags   = sigact.flags;
+		old.sa_mask    = sigact.mask;
 
+		// Read new action if provided (both may be the same address)
+		if (action != 0x0) {
+			machine.memory.copy_from_guest(&sa, action, sizeof(sa));
+		}
 		// Return old action if requested
 		if (old_action != 0x0) {
-			sa.sa_handler = sigact.handler & ~address_t(0x3);
-			sa.sa_flags   = (sigact.altstack ? LINUX_SA_ONSTACK : 0x0);
-			sa.sa_restorer = 0;
-			sa.sa_mask    = sigact.mask;
-			machine.memory.copy_to_guest(old_action, &sa, sizeof(sa));
+			machine.memory.copy_to_guest(old_action, &old, sizeof(old));
 		}
 		// Set new action if provided
 		if (action != 0x0) {
-			machine.memory.copy_from_guest(&sa, action, sizeof(sa));
-			sigact.handler  = sa.sa_handler & ~address_t(0x3);
+			sigact.handler  = sa.sa_handler;
+			sigact.flags    = sa.sa_flags;
 			sigact.altstack = (sa.sa_flags & LINUX_SA_ONSTACK) != 0;
 			sigact.mask     = sa.sa_mask;
 		}
@@ -426,7 +431,6 @@ namespace loongarch
 
 		// Jump to signal handler and change to altstack, if set
 		machine.signals().enter(machine, sig);
-		machine.set_result(0);
 	}
 
 	static void syscall_tgkill(Machine& machine)
@@ -456,7 +460,6 @@ namespace loongarch
 
 		// Jump to signal handler and change to altstack, if set
 		machine.signals().enter(machine, sig);
-		machine.set_result(0);
 	}
 
 	static void syscall_brk(Machine& machine)
diff --git a/lib/libloong/posix/signals.cpp b/lib/libloong/posix/signals.cpp
index fe59858..1450194 100644
--- a/lib/libloong/posix/signals.cpp
+++ b/lib/libloong/posix/signals.cpp
@@ -6,10 +6,7 @@ namespace loongarch
 {
 	SignalAction& Signals::get(int sig)
 	{
-		if (sig == 0) {
-			return signals[0];
-		}
-		else if (sig < 1 || sig > 64) {
+		if (sig < 1 || sig > 64) {
 			throw MachineException(INVALID_PROGRAM,
 				"Signal number out of range", sig);
 		}
@@ -27,11 +24,16 @@ namespace loongarch
 		// Switch to alternate stack if configured
 		if (sigact.altstack) {
 			auto& stack = per_thread(machine.gettid()).stack;
-			machine.cpu.reg(REG_SP) = stack.ss_sp + stack.ss_size;
+			static constexpr int LINUX_SS_DISABLE = 2;
+			if (stack.ss_size != 0x0 && (stack.ss_flags & LINUX_SS_DISABLE) == 0) {
+				machine.cpu.reg(REG_SP) = stack.ss_sp + stack.ss_size;
+			}
 		}
 
+		// The handler receives the signal number
+		machine.cpu.reg(REG_A0) = sig;
 		// Jump to handler
-		machine.cpu.jump(sigact.handler-4);
+		machine.cpu.jump((sigact.handler & ~address_t(0x3)) - 4);
 	}
 
 } // namespace loongarch
diff --git a/lib/libloong/posix/signals.hpp b/lib/libloong/posix/signals.hpp
index c09902b..a25f3b1 100644
--- a/lib/libloong/posix/signals.hpp
+++ b/lib/libloong/posix/signals.hpp
@@ -14,6 +14,7 @@ namespace loongarch
 	{
 		address_t ss_sp = 0x0;      // Stack pointer
 		int       ss_flags = 0x0;   // Flags (SS_ONSTACK, SS_DISABLE, etc.)
+		int       ss_padding = 0x0; // Guest-visible padding
 		address_t ss_size = 0;      // Stack size
 	};
 
@@ -21,14 +22,16 @@ namespace loongarch
 	struct SignalAction
 	{
 		static constexpr address_t SIG_UNSET = ~address_t(0x0);
+		static constexpr address_t SIG_IGNORE = 0x1;
 
 		bool is_unset() const noexcept {
-			return handler == 0x0 || handler == SIG_UNSET;
+			return handler == 0x0 || handler == SIG_UNSET || handler == SIG_IGNORE;
 		}
 
 		address_t handler = SIG_UNSET;  // Handler address
 		bool altstack = false;          // Use alternate stack?
-		unsigned mask = 0x0;            // Signal mask
+		address_t flags = 0x0;          // Signal action flags
+		address_t mask = 0x0;           // Signal mask
 	};
 
 	// Signal return state (stores registers for return)
-- 
2.43.0


From f485e75f37c7d1f539524fcb812641b0aa63e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 35/87] fix: threads are woken, blocked and forgotten
 consistently

---
 lib/libloong/linux/syscalls_threads.cpp | 33 +++++++++++++---------
 lib/libloong/posix/threads.cpp          | 37 +++++++++++++++++--------
 lib/libloong/posix/threads.hpp          | 10 +++----
 3 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 641a639..f7e931c 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -9,6 +9,7 @@ namespace loongarch
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOSPC = 28;
+	static constexpr int64_t LA_ESRCH = 3;
 
 	// Syscall numbers (LoongArch Linux ABI)
 	enum LA_ThreadSyscalls {
@@ -47,11 +48,11 @@ namespace loongarch
 				thprint(machine,
 					"FUTEX: Waiting (blocked)... uaddr=0x%llx val=%d, bitset=%d\n",
 					static_cast<unsigned long long>(addr), val, is_bitset);
-				if (machine.threads().block(0, addr, is_bitset ? val3 : 0x0)) {
+				if (machine.threads().block(0, addr, is_bitset ? val3 : ~0x0)) {
 					return;
 				}
 				// Deadlock - unlock and continue
-				machine.memory.write<address_t>(addr, 0);
+				machine.memory.write<uint32_t>(addr, 0);
 				machine.set_result(0);
 				return;
 			}
@@ -59,7 +60,8 @@ namespace loongarch
 				"FUTEX: Wait condition EAGAIN... uaddr=0x%llx val=%d, bitset=%d\n",
 				static_cast<unsigned long long>(addr), val, is_bitset);
 			// This thread isn't blocked, but yielding may be necessary
-			machine.threads().suspend_and_yield(-LA_EAGAIN);
+			if (!machine.threads().suspend_and_yield(-LA_EAGAIN))
+				machine.set_result(-LA_EAGAIN);
 			return;
 		} else if ((futex_op & 0xF) == FUTEX_WAKE || (futex_op & 0xF) == FUTEX_WAKE_BITSET) {
 			const bool is_bitset = (futex_op & 0xF) == FUTEX_WAKE_BITSET;
@@ -106,7 +108,7 @@ namespace loongarch
 		// set_tid_address
 		this->install_syscall_handler(96,
 		[](Machine& machine) {
-			const int clear_tid = machine.sysarg<address_t>(0);
+			const auto clear_tid = machine.sysarg<address_t>(0);
 			// With initialized threads
 			if (machine.has_threads()) {
 				machine.threads().get_thread()->clear_tid = clear_tid;
@@ -135,7 +137,8 @@ namespace loongarch
 		this->install_syscall_handler(124,
 		[](Machine& machine) {
 			thprint(machine, "%s\n", ">>> sched_yield()");
-			machine.threads().suspend_and_yield();
+			if (!machine.threads().suspend_and_yield())
+				machine.set_result(0);
 		});
 
 		// tgkill (update to work with threads)
@@ -148,9 +151,16 @@ namespace loongarch
 			auto* thread = machine.threads().get_thread(tid);
 			if (thread != nullptr) {
 				// If the signal is unhandled, exit the thread
-				if (sig != 0 && machine.sigaction(sig).is_unset()) {
-					if (!thread->exit())
+				if (sig == 0 || machine.sigaction(sig).handler == SignalAction::SIG_IGNORE) {
+					// Null signals only check that the thread exists
+					machine.set_result(0);
+					return;
+				} else if (machine.sigaction(sig).is_unset()) {
+					const bool myself = (thread == machine.threads().get_thread());
+					if (!thread->exit()) {
+						if (!myself) machine.set_result(0);
 						return;
+					}
 				} else {
 					// Jump to signal handler and change to altstack, if set
 					machine.signals().enter(machine, sig);
@@ -161,6 +171,9 @@ namespace loongarch
 						static_cast<unsigned long long>(machine.cpu.reg(REG_SP)));
 					return;
 				}
+			} else {
+				machine.set_result(-LA_ESRCH);
+				return;
 			}
 			machine.stop();
 		});
@@ -262,12 +275,6 @@ namespace loongarch
 					stack, flags, parent->tid, ctid, ptid, tls);
 			auto* thread = machine.threads().create(flags, ctid, ptid, stack, tls, 0, 0);
 
-			if (args.set_tid_count > 0) {
-				address_t set_tid = 0;
-				machine.memory.copy_from_guest(&set_tid, args.set_tid_array, sizeof(set_tid));
-				thread->clear_tid = set_tid;
-			}
-
 			// store return value for parent: child TID
 			parent->suspend(thread->tid);
 			// activate and return 0 for the child
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7ac53cf..554212e 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -37,7 +37,9 @@ void MultiThreading::wakeup_next()
 		// resume next thread
 		next->resume();
 	} else {
+		// Everyone is blocked: the main thread wakes up spuriously
 		auto* next = get_thread(0);
+		std::erase(m_blocked, next);
 		next->resume();
 	}
 }
@@ -76,7 +78,9 @@ bool Thread::exit()
 	const int tid = this->tid;
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
-		threading.machine.memory.write<address_t>(this->clear_tid, 0);
+		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
+		// Wake up one thread waiting for the exit
+		threading.wakeup_blocked(1, this->clear_tid);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
@@ -108,7 +112,7 @@ void Thread::suspend(address_t return_value)
 	this->stored_regs.get(REG_A0) = return_value;
 }
 
-void Thread::block(uint32_t reason, uint32_t extra)
+void Thread::block(address_t reason, uint32_t extra)
 {
 	// copy all regs
 	this->stored_regs = threading.machine.cpu.registers();
@@ -118,7 +122,7 @@ void Thread::block(uint32_t reason, uint32_t extra)
 	threading.m_blocked.push_back(this);
 }
 
-void Thread::block_return(address_t return_value, uint32_t reason, uint32_t extra)
+void Thread::block_return(address_t return_value, address_t reason, uint32_t extra)
 {
 	this->block(reason, extra);
 	// set the block reason as the next return value
@@ -143,16 +147,18 @@ Thread* MultiThreading::create(
 		throw MachineException(INVALID_PROGRAM, "Too many threads", this->m_max_threads);
 
 	const int tid = ++this->m_thread_counter;
-	auto it = m_threads.try_emplace(tid, *this, tid, tls, stack, stkbase, stksize);
-	auto* thread = &it.first->second;
 
-	// flag for write child TID
+	// flag for write child TID (can throw)
 	if (flags & CHILD_SETTID) {
-		machine.memory.write<uint32_t>(ctid, thread->tid);
+		machine.memory.write<uint32_t>(ctid, tid);
 	}
 	if (flags & PARENT_SETTID) {
-		machine.memory.write<uint32_t>(ptid, thread->tid);
+		machine.memory.write<uint32_t>(ptid, tid);
 	}
+
+	auto it = m_threads.try_emplace(tid, *this, tid, tls, stack, stkbase, stksize);
+	auto* thread = &it.first->second;
+
 	if (flags & CHILD_CLEARTID) {
 		thread->clear_tid = ctid;
 	}
@@ -162,6 +168,10 @@ Thread* MultiThreading::create(
 
 void MultiThreading::erase_thread(int tid)
 {
+	// The thread may be waiting in one of the lists
+	auto* thread = get_thread(tid);
+	std::erase(m_suspended, thread);
+	std::erase(m_blocked, thread);
 	m_threads.erase(tid);
 }
 
@@ -177,10 +187,10 @@ bool MultiThreading::suspend_and_yield(long result)
 	return false;
 }
 
-bool MultiThreading::block(address_t retval, uint32_t reason, uint32_t extra)
+bool MultiThreading::block(address_t retval, address_t reason, uint32_t extra)
 {
 	// Block current thread and yield to next
-	if (!m_suspended.empty() || m_threads.size() > 1) {
+	if (!m_suspended.empty()) {
 		auto* current = get_thread();
 		current->block_return(retval, reason, extra);
 		wakeup_next();
@@ -200,7 +210,7 @@ void MultiThreading::unblock(int tid)
 	}
 }
 
-size_t MultiThreading::wakeup_blocked(size_t max, uint32_t reason, uint32_t mask)
+size_t MultiThreading::wakeup_blocked(size_t max, address_t reason, uint32_t mask)
 {
 	size_t awakened = 0;
 	for (auto it = m_blocked.begin(); it != m_blocked.end() && awakened < max; ) {
@@ -230,6 +240,11 @@ bool MultiThreading::yield_to(int tid, bool store_retval, address_t retval)
 	if (thread == nullptr) return false;
 
 	auto* current = get_thread();
+	// Blocked threads have to be unblocked first
+	auto it = std::find(m_suspended.begin(), m_suspended.end(), thread);
+	if (thread == current || it == m_suspended.end()) return false;
+	m_suspended.erase(it);
+
 	if (store_retval)
 		current->suspend(retval);
 	else
diff --git a/lib/libloong/posix/threads.hpp b/lib/libloong/posix/threads.hpp
index 90985fa..40ad4be 100644
--- a/lib/libloong/posix/threads.hpp
+++ b/lib/libloong/posix/threads.hpp
@@ -28,7 +28,7 @@ namespace loongarch
 		// Address zeroed when exiting
 		address_t clear_tid = 0;
 		// The current or last blocked word
-		uint32_t block_word = 0;
+		address_t block_word = 0;
 		uint32_t block_extra = 0;
 
 		Thread(MultiThreading&, int tid, address_t tls,
@@ -37,8 +37,8 @@ namespace loongarch
 		bool exit(); // Returns false when we *cannot* continue
 		void suspend();
 		void suspend(address_t return_value);
-		void block(uint32_t reason, uint32_t extra = 0);
-		void block_return(address_t return_value, uint32_t reason, uint32_t extra);
+		void block(address_t reason, uint32_t extra = 0);
+		void block_return(address_t return_value, address_t reason, uint32_t extra);
 		void activate();
 		void resume();
 	};
@@ -55,9 +55,9 @@ namespace loongarch
 		bool      yield_to(int tid, bool store_retval = false, address_t retval = 0);
 		void      erase_thread(int tid);
 		void      wakeup_next();
-		bool      block(address_t retval, uint32_t reason, uint32_t extra = 0);
+		bool      block(address_t retval, address_t reason, uint32_t extra = 0);
 		void      unblock(int tid);
-		size_t    wakeup_blocked(size_t max, uint32_t reason, uint32_t mask = ~0U);
+		size_t    wakeup_blocked(size_t max, address_t reason, uint32_t mask = ~0U);
 		/* A suspended thread can at any time be resumed. */
 		auto&     suspended_threads() { return m_suspended; }
 		/* A blocked thread can only be resumed by unblocking it. */
-- 
2.43.0


From 140874eb6ce275e41f997942abbf9d589a66cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 36/87] fix: system call handlers installed before the first
 machine are kept

---
 lib/libloong/machine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 477e3d5..021f05d 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -17,11 +17,14 @@ namespace loongarch
 		// Initialize all system call handlers to a throwing stub on first creation (thread-safe)
 		static std::once_flag init_flag;
 		std::call_once(init_flag, []() {
+			// Handlers that were installed before that are kept
+			if (m_unknown_syscall_handler == nullptr)
 			m_unknown_syscall_handler = [](Machine& m, int sysnum) {
 				throw MachineException(UNIMPLEMENTED_SYSCALL,
 					"Unimplemented system call", sysnum);
 			};
 			for (auto& handler : m_syscall_handlers) {
+				if (handler == nullptr)
 				handler = [](Machine& m) {
 					const int sysnum = static_cast<int>(m.cpu.reg(REG_A7));
 					m_unknown_syscall_handler(m, sysnum);
-- 
2.43.0


From d8d9c9a13882375d18ac34ec3a767f354a034482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 37/87] fix: programs with several executable segments can
 execute all of them

---
 lib/libloong/elf_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 49c0396..94b1b1e 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -250,7 +250,7 @@ void Memory::binary_loader(const MachineOptions& options)
 
 				create_execute_segment(options,
 					(const void*)(m_binary.data() + file_offset),
-					exec_vaddr, exec_size, true, false);
+					exec_vaddr, exec_size, m_main_exec_segment == nullptr, false);
 			}
 		}
 	}
-- 
2.43.0


From 6584c8e4a285d4890078dce66dc62f20fef40ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 38/87] fix: segments with more file bytes than memory are
 refused

---
 lib/libloong/elf_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 94b1b1e..5db9e61 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -129,7 +129,7 @@ void Memory::binary_loader(const MachineOptions& options)
 		if (phdr->type == Elf::PT_LOAD) {
 			address_t start = phdr->vaddr;
 			address_t end = phdr->vaddr + phdr->memsz;
-			if (end > options.memory_max || end < start) {
+			if (end > options.memory_max || end < start || phdr->filesz > phdr->memsz) {
 				throw MachineException(INVALID_PROGRAM, "ELF segment invalid", phdr->vaddr);
 			}
 			min_addr = std::min(min_addr, start);
-- 
2.43.0


From 0465ea36d1ab7f504cb4360440db03fa7698b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 39/87] fix: a .text section whose size wraps around is not
 taken as code

---
 lib/libloong/elf_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5db9e61..74fe98b 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -234,9 +234,9 @@ void Memory::binary_loader(const MachineOptions& options)
 					// Check if .text section is within this segment
 					const address_t seg_start = phdr->vaddr;
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
-					const address_t text_end = text_bounds.start + text_bounds.size;
 
-					if (text_bounds.start >= seg_start && text_end <= seg_end) {
+					if (text_bounds.start >= seg_start && text_bounds.start <= seg_end &&
+						text_bounds.size <= seg_end - text_bounds.start) {
 						exec_vaddr = text_bounds.start;
 						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
 						file_offset = phdr->offset + (text_bounds.start - seg_start);
-- 
2.43.0


From dc286607a9307a5d07b9078ffd6d0da11a0e9466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 40/87] fix: symbol tables and symbol names outside the file
 are ignored

---
 lib/libloong/memory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 0ac94cb..a09ddff 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -193,8 +193,8 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
                                     const MachineOptions& options)
 {
 	// Validate section offsets and sizes
-	if (symtab->offset + symtab->size > m_binary.size() ||
-	    strtab->offset + strtab->size > m_binary.size()) {
+	if (symtab->offset > m_binary.size() || symtab->size > m_binary.size() - symtab->offset ||
+	    strtab->offset > m_binary.size() || strtab->size > m_binary.size() - strtab->offset) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid symbol or string table section\n");
 		}
@@ -213,7 +213,8 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
 		if ((type == Elf::STT_FUNC || type == Elf::STT_OBJECT) && sym.value != 0) {
 			if (sym.name + 1 < strtab->size && sym.name + 1 > sym.name) {
 				const char* name = string_table + sym.name;
-				if (name[0] != '\0') {
+				// The name must end inside the string table
+				if (name[0] != '\0' && memchr(name, 0, strtab->size - sym.name) != nullptr) {
 					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), name});
 
 					if (false && options.verbose_loader) {
-- 
2.43.0


From c6c6f8a502bfdc3d33b4b1ccc5867dc64cdf2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 41/87] fix: a refused executable does not leak the memory
 arena

---
 lib/libloong/memory.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index a09ddff..fcaf176 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -21,7 +21,13 @@ Memory::Memory(Machine& machine,
 	  m_main_exec_segment(nullptr)
 {
 	if (!binary.empty()) {
-		binary_loader(options);
+		try {
+			binary_loader(options);
+		} catch (...) {
+			// The destructor will not run, and a donated arena stays with the host
+			if (m_arena != options.custom_arena_pointer) free_arena();
+			throw;
+		}
 	}
 }
 
-- 
2.43.0


From 7d8fb4b96a014925b2da4fd9b5c5ae11518ca24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 42/87] fix: the initial stack pointer is 16-byte aligned for
 every argument count

---
 lib/libloong/machine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 021f05d..983972c 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -103,6 +103,10 @@ namespace loongarch
 		}
 		memory.copy_to_guest(random_addr, random_data.data(), random_data.size());
 
+		// The pointers and the argument count below must leave the stack 16-byte aligned
+		if ((args.size() + env.size() + 3) & 1)
+			sp -= sizeof(address_t);
+
 		// Build auxiliary vector (in reverse order since we push from high to low)
 		const address_t at_base = memory.start_address() & ~address_t(0xFFFFFFLL);
 		std::vector<std::pair<address_t, address_t>> auxv;
-- 
2.43.0


From 2645a9efb00202622414ea5ad563555ebd670876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 43/87] fix: arguments that do not fit on the stack are refused
 before anything is written

---
 lib/libloong/elf_loader.cpp |  1 +
 lib/libloong/machine.cpp    | 10 ++++++++++
 lib/libloong/memory.hpp     |  2 ++
 3 files changed, 13 insertions(+)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 74fe98b..c7f7ce9 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -163,6 +163,7 @@ void Memory::binary_loader(const MachineOptions& options)
 	// m_stack_address is the TOP of the stack (highest address)
 	const address_t stack_base = this->mmap_allocate(options.stack_size);
 	this->m_stack_address = stack_base + options.stack_size;
+	this->m_stack_base = stack_base;
 	this->m_mmap_start = this->m_mmap_address;
 
 	if (this->m_mmap_address > options.memory_max) {
diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 983972c..2fcb8a8 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -76,6 +76,16 @@ namespace loongarch
 		address_t sp = cpu.reg(REG_SP);
 		sp &= ~address_t(15);
 
+		// Everything must fit inside the stack area, when that is the stack in use
+		size_t needed = 16 * sizeof(address_t) * 2 + (args.size() + env.size() + 4) * sizeof(address_t) + 48;
+		for (const auto& e : env) needed += e.size() + 1;
+		for (const auto& arg : args) needed += arg.size() + 1;
+		const address_t stack_base = memory.stack_base();
+		if (stack_base != 0 && sp >= stack_base && sp <= memory.stack_address() && needed > sp - stack_base) {
+			throw MachineException(OUT_OF_MEMORY,
+				"Arguments and environment do not fit on the stack", needed);
+		}
+
 		// Push environment variables
 		std::vector<address_t> env_ptrs;
 		for (const auto& e : env) {
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index d0ee23b..f434111 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -60,6 +60,7 @@ namespace loongarch
 		address_t start_address() const noexcept { return m_start_address; }
 		address_t stack_address() const noexcept { return m_stack_address; }
 		void set_stack_address(address_t addr) noexcept { m_stack_address = addr; }
+		address_t stack_base() const noexcept { return m_stack_base; } // Lowest address of the stack set up by the loader
 		address_t exit_address() const noexcept { return m_exit_address; }
 		void set_exit_address(address_t addr) noexcept { m_exit_address = addr; }
 
@@ -119,6 +120,7 @@ namespace loongarch
 		// Memory layout
 		address_t m_start_address = 0;
 		address_t m_stack_address = 0;
+		address_t m_stack_base = 0;
 		address_t m_exit_address = 0;
 		address_t m_heap_address = 0;
 		address_t m_brk_address = 0;
-- 
2.43.0


From 3249570df7614342c2affde6b2bc924009a9f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 44/87] fix: AT_PHDR points at the loaded program headers
 wherever their segment is

---
 lib/libloong/elf_loader.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index c7f7ce9..4cb4935 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -152,6 +152,16 @@ void Memory::binary_loader(const MachineOptions& options)
 	// Set phdr address - it's at base + phoff
 	// For statically linked binaries, phdr is at the file offset from the base
 	this->m_elf_phdr_addr = min_addr + ehdr->phoff;
+	// If a segment brings them into memory, that is where they are
+	for (size_t i = 0; i < ehdr->phnum; i++) {
+		const auto* phdr = reinterpret_cast<const Elf::ProgramHeader*>(
+			this->m_binary.data() + ehdr->phoff + i * sizeof(Elf::ProgramHeader));
+		if (phdr->type == Elf::PT_LOAD && phdr->offset <= ehdr->phoff &&
+			elf_phdr_end_address - phdr->offset <= phdr->filesz) {
+			this->m_elf_phdr_addr = phdr->vaddr + (ehdr->phoff - phdr->offset);
+			break;
+		}
+	}
 
 	// Initialize heap at end of loaded data
 	this->m_heap_address = max_addr;
-- 
2.43.0


From 9005252ced8d1bb7ceeb6eebb460aaa25fddfc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 45/87] fix: the native heap keeps all 64 bits of guest
 addresses

---
 lib/libloong/native/heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index ba250b5..e41429c 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -15,7 +15,7 @@ struct Arena;
 
 struct ArenaChunk
 {
-	using PointerType = uint32_t;
+	using PointerType = address_t;
 
 	ArenaChunk() = default;
 	ArenaChunk(ArenaChunk* n, ArenaChunk* p, size_t s, bool f, PointerType d)
-- 
2.43.0


From 168c7c8b2f4d22c8501f6262a0b8838a617b9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 46/87] fix: an allocation size near the address-space limit
 does not wrap

---
 lib/libloong/native/heap.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index e41429c..7c410b8 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -101,7 +101,10 @@ struct Arena
 		return (size + (ALIGNMENT-1)) & ~(ALIGNMENT-1);
 	}
 	static size_t fixup_size(size_t size) {
-		// The minimum allocation is 8 bytes
+		// Sizes that cannot be rounded up are too large for any arena
+		if (LA_UNLIKELY(size > ~size_t(ALIGNMENT-1)))
+			return ~size_t(ALIGNMENT-1);
+		// The minimum allocation is 16 bytes
 		return std::max(ALIGNMENT, word_align(size));
 	}
 private:
-- 
2.43.0


From 2879a07c5606245f983260f634a4d8790c76e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 47/87] fix: calloc refuses counts and sizes whose product
 overflows

---
 lib/libloong/machine_accelerate.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index e98425c..bd2791b 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -211,7 +211,11 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 	{
 		const auto [count, size] =
 			machine.template sysargs<address_t, address_t> ();
-		const size_t len = count * size;
+		size_t len = 0;
+		if (__builtin_mul_overflow(count, size, &len)) {
+			machine.set_result<address_t>(0);
+			return;
+		}
 		auto data = machine.arena().malloc(len);
 		HPRINT("SYSCALL calloc(%zu, %zu) = 0x%lX\n",
 			(size_t)count, (size_t)size, (long)data);
-- 
2.43.0


From 4969db655444fc35d1edd4f2908c3dcab9781336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 48/87] fix: an accelerated memcpy of overlapping buffers is
 well-defined for the host

---
 lib/libloong/machine_accelerate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index bd2791b..fa0b64d 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -66,10 +66,10 @@ void Machine::setup_accelerated_syscalls()
 			machine.set_result(dest);
 			return;
 		}
-		// Perform native memcpy
+		// Perform native memcpy (the guest decides if the buffers overlap)
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-		std::memcpy(dest_ptr, src_ptr, n);
+		std::memmove(dest_ptr, src_ptr, n);
 
 		machine.set_result(dest);
 	});
-- 
2.43.0


From 5311c1a794e57c21a02f86858c8db6e642f5ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 49/87] fix: accelerated memory routines of zero length touch
 no memory

---
 lib/libloong/machine_accelerate.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index fa0b64d..e032e6d 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -79,6 +79,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const int value      = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result(dest);
+			return;
+		}
 		// Perform native memset
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		std::memset(dest_ptr, value, n);
@@ -91,6 +95,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr1 = machine.cpu.reg(REG_A0);
 		const address_t ptr2 = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result<int>(0);
+			return;
+		}
 		// Perform native memcmp
 		const uint8_t* p1 = machine.memory.template memarray<uint8_t>(ptr1, n);
 		const uint8_t* p2 = machine.memory.template memarray<uint8_t>(ptr2, n);
@@ -104,6 +112,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const address_t src  = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result(dest);
+			return;
+		}
 		// Perform native memmove
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-- 
2.43.0


From 4bfe75e8e2aca868a030b4497daa6f1095d41545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 50/87] fix: accelerated memchr stops at the first match

---
 lib/libloong/machine_accelerate.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index e032e6d..f7d6ac1 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -47,6 +47,14 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 	}
 }
 
+// The number of bytes from the given address to the end of guest memory
+static inline size_t bytes_until_end(const Machine& machine, address_t addr)
+{
+	// An invalid address keeps one byte, which then faults
+	const size_t arena_size = machine.memory.arena_size();
+	return (addr < arena_size) ? arena_size - addr : 1;
+}
+
 void Machine::setup_accelerated_syscalls()
 {
 	// Register accelerated syscalls here
@@ -129,14 +137,22 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr = machine.cpu.reg(REG_A0);
 		const int value     = machine.cpu.reg(REG_A1);
 		const size_t n      = machine.cpu.reg(REG_A2);
-		// Perform native memchr
-		const uint8_t* p = machine.memory.template memarray<uint8_t>(ptr, n);
-		const void* result = std::memchr(p, value, n);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result<address_t>(0);
+			return;
+		}
+		// Perform native memchr. The length may exceed the object,
+		// as the search stops at the first match.
+		const size_t len = std::min(n, bytes_until_end(machine, ptr));
+		const uint8_t* p = machine.memory.template memarray<uint8_t>(ptr, len);
+		const void* result = std::memchr(p, value, len);
 
 		if (result) {
 			const address_t offset = static_cast<const uint8_t*>(result) - p;
 			machine.set_result(ptr + offset);
 		} else {
+			// The rest must also be readable
+			machine.memory.template memarray<uint8_t>(ptr, n);
 			machine.set_result<address_t>(0);
 		}
 	});
-- 
2.43.0


From 9ccc7b81a6e068816d51ac6fd13cd5c9a3edc3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 51/87] fix: accelerated string routines have no length limit
 and stop at terminators

---
 lib/libloong/machine_accelerate.cpp | 53 +++++++++++++++++++----------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index f7d6ac1..1cd7523 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -55,6 +55,37 @@ static inline size_t bytes_until_end(const Machine& machine, address_t addr)
 	return (addr < arena_size) ? arena_size - addr : 1;
 }
 
+// Length of a guest string of at most maxlen bytes, which faults
+// when the string continues outside of guest memory
+static inline size_t guest_strnlen(const Machine& machine, address_t addr, size_t maxlen)
+{
+	const size_t len = machine.memory.strlen(addr, maxlen);
+	if (len < maxlen) {
+		// The terminator must be readable
+		machine.memory.template memarray<char>(addr, len + 1);
+	}
+	return len;
+}
+
+// Compare guest strings up to and including the first terminator, at most maxlen bytes
+static inline int guest_strncmp(const Machine& machine, address_t str1, address_t str2, size_t maxlen)
+{
+	if (maxlen == 0)
+		return 0;
+	const size_t len1 = machine.memory.strlen(str1, maxlen);
+	const size_t len2 = machine.memory.strlen(str2, maxlen);
+	const size_t cmp_len = std::min(len1, len2);
+	const char* s1 = machine.memory.template memarray<char>(str1, cmp_len);
+	const char* s2 = machine.memory.template memarray<char>(str2, cmp_len);
+	const int result = std::memcmp(s1, s2, cmp_len);
+	if (result != 0 || cmp_len == maxlen)
+		return result;
+	// At least one of the strings ends here
+	const int c1 = machine.memory.template read<uint8_t>(str1 + cmp_len);
+	const int c2 = machine.memory.template read<uint8_t>(str2 + cmp_len);
+	return c1 - c2;
+}
+
 void Machine::setup_accelerated_syscalls()
 {
 	// Register accelerated syscalls here
@@ -160,33 +191,21 @@ void Machine::setup_accelerated_syscalls()
 	install_syscall_handler(SYS_native_strlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
-		machine.set_result(machine.memory.strlen(str_addr));
+		machine.set_result(guest_strnlen(machine, str_addr, SIZE_MAX));
 	});
 
 	install_syscall_handler(SYS_native_strnlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
 		const size_t maxlen      = machine.cpu.reg(REG_A1);
-		machine.set_result(machine.memory.strlen(str_addr, maxlen));
+		machine.set_result(guest_strnlen(machine, str_addr, maxlen));
 	});
 
 	install_syscall_handler(SYS_native_strcmp,
 	[] (Machine& machine) {
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
-		const size_t len1 = machine.memory.strlen(str1_addr);
-		const size_t len2 = machine.memory.strlen(str2_addr);
-		const size_t cmp_len = std::min(len1, len2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, cmp_len + 1);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, cmp_len + 1);
-		int result = std::memcmp(s1, s2, cmp_len);
-		if (result == 0) {
-			if (len1 < len2) {
-				result = -1;
-			} else if (len1 > len2) {
-				result = 1;
-			}
-		}
+		const int result = guest_strncmp(machine, str1_addr, str2_addr, SIZE_MAX);
 
 		machine.set_result<int>(result);
 	});
@@ -196,9 +215,7 @@ void Machine::setup_accelerated_syscalls()
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
 		const size_t n            = machine.cpu.reg(REG_A2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, n);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, n);
-		const int result = std::memcmp(s1, s2, n);
+		const int result = guest_strncmp(machine, str1_addr, str2_addr, n);
 
 		machine.set_result<int>(result);
 	});
-- 
2.43.0


From 000ee33798a41c0e8fc75ef223e68a33e29dd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 52/87] fix: decoding code in one machine does not move
 handlers other machines are using

---
 lib/libloong/decoder_cache.cpp | 10 +++++++---
 lib/libloong/decoder_cache.hpp |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 7e4b442..e5fbec6 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -298,16 +298,20 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 
 	uint16_t DecoderData::compute_handler_for(handler_t handler)
 	{
+		std::lock_guard<std::mutex> lock(m_handler_mutex);
 		// Search for existing handler
-		for (size_t i = 0; i < m_handlers.size(); ++i) {
+		for (size_t i = 0; i < m_handler_count; ++i) {
 			if (m_handlers[i] == handler) {
 				return static_cast<uint16_t>(i);
 			}
 		}
 
 		// Add new handler
-		m_handlers.push_back(handler);
-		return static_cast<uint16_t>(m_handlers.size() - 1);
+		if (m_handler_count >= m_handlers.size()) {
+			throw std::runtime_error("DecoderCache: Too many instruction handlers");
+		}
+		m_handlers[m_handler_count] = handler;
+		return static_cast<uint16_t>(m_handler_count++);
 	}
 
 	void DecodedExecuteSegment::set(address_t entry_addr, const DecoderData& data)
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index f370e07..33e0105 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "common.hpp"
-#include <vector>
+#include <array>
+#include <mutex>
 
 namespace loongarch
 {
@@ -35,7 +36,11 @@ namespace loongarch
 		}
 
 	private:
-		static inline std::vector<handler_t> m_handlers;
+		// The handlers never move, as other machines may be using them.
+		// There is room for LA64_BC_FUNCTION and LA64_BC_FUNCTION2.
+		static inline std::array<handler_t, 512> m_handlers {};
+		static inline size_t m_handler_count = 0;
+		static inline std::mutex m_handler_mutex;
 	};
 	static_assert(sizeof(DecoderData) == 8, "DecoderData size incorrect");
 
-- 
2.43.0


From 5b5012c91760ed16f9069240f6b7013022d9405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 53/87] fix: a shared execute segment is published only when it
 is complete

---
 lib/libloong/memory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index fcaf176..612afcb 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -353,8 +353,10 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 			std::lock_guard<std::mutex> lock(entry.mutex);
 			// Double-check in case another thread created it
 			if (!entry.segment) {
-				entry.segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, entry.segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+				// Nobody must find the segment if populating it fails
+				segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+				populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+				entry.unlocked_set(segment);
 			}
 			segment = entry.segment;
 		}
-- 
2.43.0


From 6b0d06d6305e22bcc8819001d596efc3ad379eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 54/87] fix: shared execute segments are forgotten when the
 last machine using them is gone

---
 lib/libloong/memory.cpp | 30 +++++++++++-------------------
 lib/libloong/memory.hpp |  2 ++
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 612afcb..4d87c3f 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -25,6 +25,7 @@ Memory::Memory(Machine& machine,
 			binary_loader(options);
 		} catch (...) {
 			// The destructor will not run, and a donated arena stays with the host
+			evict_execute_segments();
 			if (m_arena != options.custom_arena_pointer) free_arena();
 			throw;
 		}
@@ -59,6 +60,7 @@ Memory::~Memory()
 #else
 	free_arena();
 #endif
+	evict_execute_segments();
 }
 
 void Memory::allocate_arena(size_t size)
@@ -338,6 +340,9 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 		// Create segment key
 		SegmentKey key = SegmentKey::from(addr, crc32c, m_arena_size);
 
+		// The cache forgets the segment when the last user is gone
+		m_shared_exec_keys.push_back(key);
+
 		// Try to get existing shared segment
 		auto& shared_cache = get_shared_execute_segments();
 		auto& entry = shared_cache.get_segment(key);
@@ -390,27 +395,14 @@ void Memory::evict_execute_segments()
 {
 	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
 
-	// If using shared segments, notify the cache before releasing our references
-	if (machine().has_options() && machine().options().use_shared_execute_segments) {
-		auto& shared_cache = get_shared_execute_segments();
-
-		// Remove main segment if unique
-		if (m_main_exec_segment) {
-			SegmentKey key = SegmentKey::from(*m_main_exec_segment, m_arena_size);
-			shared_cache.remove_if_unique(key);
-		}
-
-		// Remove other segments if unique
-		for (auto& seg : m_exec) {
-			if (seg) {
-				SegmentKey key = SegmentKey::from(*seg, m_arena_size);
-				shared_cache.remove_if_unique(key);
-			}
-		}
-	}
-
 	m_exec.clear();
 	m_main_exec_segment.reset();
+
+	// If using shared segments, notify the cache after releasing our references
+	for (const auto& key : m_shared_exec_keys) {
+		get_shared_execute_segments().remove_if_unique(key);
+	}
+	m_shared_exec_keys.clear();
 }
 
 void Memory::reset()
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index f434111..8515478 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -2,6 +2,7 @@
 #include "common.hpp"
 #include "page.hpp"
 #include "decoded_exec_segment.hpp"
+#include "shared_exec_segment.hpp"
 #include "elf.hpp"
 #include <vector>
 #include <memory>
@@ -116,6 +117,7 @@ namespace loongarch
 		// Execute segments
 		std::shared_ptr<DecodedExecuteSegment> m_main_exec_segment;
 		std::vector<std::shared_ptr<DecodedExecuteSegment>> m_exec;
+		std::vector<SegmentKey> m_shared_exec_keys;
 
 		// Memory layout
 		address_t m_start_address = 0;
-- 
2.43.0


From 5669938b40b799b8f8e4724cd7489327388f07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 55/87] fix: different code with the same hash does not share
 an execute segment

---
 lib/libloong/decoded_exec_segment.hpp |  8 ++++++++
 lib/libloong/memory.cpp               | 26 +++++++++++---------------
 lib/libloong/shared_exec_segment.cpp  |  4 ++++
 lib/libloong/shared_exec_segment.hpp  | 14 ++++++++++++++
 4 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/lib/libloong/decoded_exec_segment.hpp b/lib/libloong/decoded_exec_segment.hpp
index abb413f..f35a110 100644
--- a/lib/libloong/decoded_exec_segment.hpp
+++ b/lib/libloong/decoded_exec_segment.hpp
@@ -2,6 +2,7 @@
 #include "common.hpp"
 #include "decoder_cache.hpp"
 #include "tr_types.hpp"
+#include <algorithm>
 #include <vector>
 #include <mutex>
 #include <condition_variable>
@@ -18,6 +19,12 @@ namespace loongarch
 		uint32_t crc32c_hash() const noexcept { return m_crc32c_hash; }
 		void set_crc32c_hash(uint32_t hash) noexcept { m_crc32c_hash = hash; }
 
+		// The code, kept by shared segments, as different code can have the same hash
+		void set_shared_code(const uint8_t* code, size_t len) { m_shared_code.assign(code, code + len); }
+		bool is_shared_code(const uint8_t* code, size_t len) const noexcept {
+			return m_shared_code.size() == len && std::equal(code, code + len, m_shared_code.begin());
+		}
+
 		bool is_within(address_t addr, size_t len = 4) const noexcept {
 			address_t addr_end;
 #ifdef _MSC_VER
@@ -97,6 +104,7 @@ namespace loongarch
 		bool m_stale = false;
 		bool m_execute_only = false;
 		uint32_t m_crc32c_hash = 0;
+		std::vector<uint8_t> m_shared_code;
 #ifdef LA_BINARY_TRANSLATION
 		bool m_is_libtcc = false;
 		const char* m_mappings_base_address = nullptr;
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 4d87c3f..d163d51 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -348,22 +348,18 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 		auto& entry = shared_cache.get_segment(key);
 
 		// Lock the segment entry and check if it exists
-		std::shared_ptr<DecodedExecuteSegment> existing = entry.get();
-
-		if (existing) {
-			// Reuse existing shared segment
-			segment = existing;
-		} else {
-			// No existing segment, use the one we just created
-			std::lock_guard<std::mutex> lock(entry.mutex);
-			// Double-check in case another thread created it
-			if (!entry.segment) {
-				// Nobody must find the segment if populating it fails
-				segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+		const auto* code = static_cast<const uint8_t*>(data);
+		std::lock_guard<std::mutex> lock(entry.mutex);
+		segment = entry.unlocked_find(code, len);
+		if (!segment) {
+			// Nobody must find the segment if populating it fails
+			segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+			segment->set_shared_code(code, len);
+			populate_decoder_cache(m_machine, options, segment, addr, code, len, is_initial);
+			if (!entry.segment)
 				entry.unlocked_set(segment);
-			}
-			segment = entry.segment;
+			else
+				entry.colliding.push_back(segment);
 		}
 	} else {
 		// Not using shared segments, create a new one
diff --git a/lib/libloong/shared_exec_segment.cpp b/lib/libloong/shared_exec_segment.cpp
index 686ff01..8de8b76 100644
--- a/lib/libloong/shared_exec_segment.cpp
+++ b/lib/libloong/shared_exec_segment.cpp
@@ -1,5 +1,6 @@
 #include "shared_exec_segment.hpp"
 #include "util/crc32.hpp"
+#include <algorithm>
 #include <mutex>
 
 namespace loongarch
@@ -35,6 +36,9 @@ namespace loongarch
 			if (it->second.segment && it->second.segment.use_count() == 1) {
 				it->second.segment = nullptr;
 			}
+			auto& colliding = it->second.colliding;
+			colliding.erase(std::remove_if(colliding.begin(), colliding.end(),
+				[] (const auto& other) { return other.use_count() == 1; }), colliding.end());
 		}
 	}
 
diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index 3f6193e..15d257e 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -4,6 +4,7 @@
 #include <memory>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 namespace loongarch
 {
@@ -59,6 +60,8 @@ namespace loongarch
 		// concurrently by different threads.
 		struct Segment {
 			std::shared_ptr<DecodedExecuteSegment> segment;
+			// Segments with different code, but the same key
+			std::vector<std::shared_ptr<DecodedExecuteSegment>> colliding;
 			std::mutex mutex;
 
 			// Thread-safe getter
@@ -67,6 +70,17 @@ namespace loongarch
 				return segment;
 			}
 
+			// Find the segment with the given code (caller must hold mutex)
+			std::shared_ptr<DecodedExecuteSegment> unlocked_find(const uint8_t* code, size_t len) const {
+				if (segment && segment->is_shared_code(code, len))
+					return segment;
+				for (auto& other : colliding) {
+					if (other->is_shared_code(code, len))
+						return other;
+				}
+				return nullptr;
+			}
+
 			// Internal setter (caller must hold mutex)
 			void unlocked_set(std::shared_ptr<DecodedExecuteSegment> seg) {
 				this->segment = std::move(seg);
-- 
2.43.0


From f85a4d078fd34e3b82ab29269bc0b41d06fc5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:03 +0000
Subject: [PATCH 56/87] fix: accelerating a machine does not patch the code of
 machines sharing it

---
 lib/libloong/decoded_exec_segment.cpp | 29 +++++++++++++++++++++++++++
 lib/libloong/decoded_exec_segment.hpp |  6 ++++++
 lib/libloong/machine_accelerate.cpp   |  3 ++-
 lib/libloong/memory.cpp               | 20 ++++++++++++++++++
 lib/libloong/memory.hpp               |  2 ++
 5 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/decoded_exec_segment.cpp b/lib/libloong/decoded_exec_segment.cpp
index eef3a78..3212e08 100644
--- a/lib/libloong/decoded_exec_segment.cpp
+++ b/lib/libloong/decoded_exec_segment.cpp
@@ -1,5 +1,6 @@
 #include "decoded_exec_segment.hpp"
 #include "machine.hpp"
+#include <algorithm>
 
 namespace loongarch
 {
@@ -33,6 +34,34 @@ namespace loongarch
 	}
 #endif
 
+	std::shared_ptr<DecodedExecuteSegment> DecodedExecuteSegment::private_copy_of(
+		std::shared_ptr<DecodedExecuteSegment> other)
+	{
+		auto copy = std::make_shared<DecodedExecuteSegment>(other->m_exec_begin, other->m_exec_end);
+		const auto copy_cache = [] (const DecoderCache& cache, size_t entries) {
+			auto* data = new DecoderData[entries];
+			std::copy(cache.cache, cache.cache + entries, data);
+			return DecoderCache { data, cache.size };
+		};
+		// There is one extra entry at the end
+		const auto& cache = other->m_decoder_cache;
+		if (cache.cache)
+			copy->m_decoder_cache = copy_cache(cache, cache.size + 1);
+		copy->m_stale = other->m_stale;
+		copy->m_execute_only = other->m_execute_only;
+		copy->m_crc32c_hash = other->m_crc32c_hash;
+#ifdef LA_BINARY_TRANSLATION
+		copy->m_is_libtcc = other->m_is_libtcc;
+		copy->m_mappings_base_address = other->m_mappings_base_address;
+		const auto& patched = other->m_patched_decoder_cache;
+		if (patched.cache)
+			copy->m_patched_decoder_cache = copy_cache(patched, patched.size);
+#endif
+		// The original owns the translated functions
+		copy->m_copied_from = std::move(other);
+		return copy;
+	}
+
 	DecodedExecuteSegment::~DecodedExecuteSegment()
 	{
 #ifdef LA_BINARY_TRANSLATION
diff --git a/lib/libloong/decoded_exec_segment.hpp b/lib/libloong/decoded_exec_segment.hpp
index f35a110..1997120 100644
--- a/lib/libloong/decoded_exec_segment.hpp
+++ b/lib/libloong/decoded_exec_segment.hpp
@@ -3,6 +3,7 @@
 #include "decoder_cache.hpp"
 #include "tr_types.hpp"
 #include <algorithm>
+#include <memory>
 #include <vector>
 #include <mutex>
 #include <condition_variable>
@@ -25,6 +26,10 @@ namespace loongarch
 			return m_shared_code.size() == len && std::equal(code, code + len, m_shared_code.begin());
 		}
 
+		bool is_shared() const noexcept { return !m_shared_code.empty(); }
+		// A copy of a shared segment, which can be modified without others seeing it
+		static std::shared_ptr<DecodedExecuteSegment> private_copy_of(std::shared_ptr<DecodedExecuteSegment>);
+
 		bool is_within(address_t addr, size_t len = 4) const noexcept {
 			address_t addr_end;
 #ifdef _MSC_VER
@@ -105,6 +110,7 @@ namespace loongarch
 		bool m_execute_only = false;
 		uint32_t m_crc32c_hash = 0;
 		std::vector<uint8_t> m_shared_code;
+		std::shared_ptr<DecodedExecuteSegment> m_copied_from;
 #ifdef LA_BINARY_TRANSLATION
 		bool m_is_libtcc = false;
 		const char* m_mappings_base_address = nullptr;
diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 1cd7523..ea622b8 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -41,7 +41,8 @@ static inline void patch(Machine& machine, const std::vector<std::string> symbol
 			entry.block_bytes = 0; // Diverges here
 			entry.instr = syscall_number;
 			// Install into decoder cache
-			auto& exec_seg = *machine.memory.exec_segment_for(addr);
+			// (other machines may be using the same segment, unpatched)
+			auto& exec_seg = machine.memory.private_exec_segment_for(addr);
 			exec_seg.set(addr, entry);
 		}
 	}
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index d163d51..9c31ec9 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -387,6 +387,26 @@ std::shared_ptr<DecodedExecuteSegment> Memory::exec_segment_for(address_t pc) co
 	return CPU::empty_execute_segment();
 }
 
+DecodedExecuteSegment& Memory::private_exec_segment_for(address_t pc)
+{
+	auto segment = exec_segment_for(pc);
+#ifdef LA_BINARY_TRANSLATION
+	// The compilation finishes in the segment where it started
+	if (segment->is_background_compiling())
+		return *segment;
+#endif
+	if (segment->is_shared()) {
+		auto copy = DecodedExecuteSegment::private_copy_of(segment);
+		if (m_main_exec_segment == segment)
+			m_main_exec_segment = copy;
+		std::replace(m_exec.begin(), m_exec.end(), segment, copy);
+		if (&machine().cpu.current_execute_segment() == segment.get())
+			machine().cpu.set_execute_segment(*copy);
+		return *copy;
+	}
+	return *segment;
+}
+
 void Memory::evict_execute_segments()
 {
 	machine().cpu.set_execute_segment(*CPU::empty_execute_segment());
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8515478..5fdc67b 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -53,6 +53,8 @@ namespace loongarch
 			bool is_initial, bool is_likely_jit = false);
 
 		std::shared_ptr<DecodedExecuteSegment> exec_segment_for(address_t pc) const;
+		// An execute segment that can be modified, as no other machine is using it
+		DecodedExecuteSegment& private_exec_segment_for(address_t pc);
 		size_t execute_segments_count() const noexcept { return m_exec.size() + (m_main_exec_segment ? 1 : 0); }
 		void evict_execute_segments();
 
-- 
2.43.0


From e80075165a7ca7de62daeb3a81492ab94dc3ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 57/87] fix: a guest string keeps its contents when the heap
 has no room for new ones

---
 lib/libloong/guest_datatypes.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index d246e99..8fe5827 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "native/heap.hpp"
+#include <new>
 #include <stdexcept>
 #include <string>
 #include <string_view>
@@ -37,6 +38,17 @@ struct has_fix_addresses : std::false_type {};
 template <typename T>
 struct has_fix_addresses<T, std::void_t<decltype(std::declval<T>().fix_addresses(std::declval<Machine&>(), std::declval<address_t>()))>> : std::true_type {};
 
+// Allocate from the guest heap, throwing when there is not enough room
+inline address_t guest_heap_allocate(Machine& machine, std::size_t elements, std::size_t element_size)
+{
+	if (elements > SIZE_MAX / element_size)
+		throw std::bad_alloc();
+	const address_t addr = machine.arena().malloc(elements * element_size);
+	if (addr == 0)
+		throw std::bad_alloc();
+	return addr;
+}
+
 // View into libstdc++'s std::string
 struct GuestStdString {
 	static constexpr std::size_t SSO = 15;
@@ -89,18 +101,21 @@ struct GuestStdString {
 
 	void set_string(Machine& machine, address_t self, const void* str, std::size_t len, bool use_memarray = true)
 	{
-		this->free(machine);
-
 		if (len <= SSO)
 		{
+			this->free(machine);
 			this->ptr = self + offsetof(GuestStdString, data);
 			this->len = len;
-			std::memcpy(this->data, str, len);
+			// The new contents may be a part of the old
+			std::memmove(this->data, str, len);
 			this->data[len] = '\0';
 		}
 		else
 		{
-			this->ptr = machine.arena().malloc(len+1);
+			// Without room for the new string, the old string is kept
+			const address_t new_ptr = guest_heap_allocate(machine, len + 1, 1);
+			this->free(machine);
+			this->ptr = new_ptr;
 			this->len = len;
 			this->capacity = len;
 			if (use_memarray)
@@ -185,11 +200,13 @@ struct GuestRustString {
 
 	void set_string(Machine& machine, const void* str, std::size_t length, bool use_memarray = true)
 	{
+		// Without room for the new string, the old string is kept
+		const address_t new_ptr = (length > 0) ? guest_heap_allocate(machine, length, 1) : 0;
 		this->free(machine);
 
 		if (length > 0)
 		{
-			this->ptr = machine.arena().malloc(length);
+			this->ptr = new_ptr;
 			this->capacity = length;
 			this->len = length;
 			if (use_memarray)
-- 
2.43.0


From 23aea2fefa8ef1d24a0f7c423dfef0e8f19336ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 58/87] fix: growing a guest vector releases its old storage,
 or leaves the vector as it was

---
 lib/libloong/guest_datatypes.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 8fe5827..e559d3b 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -471,16 +471,21 @@ struct GuestStdVector {
 		if (elements <= capacity())
 			return;
 
-		GuestStdVector<T> old_vec(std::move(*this));
-		// Allocate new memory
-		auto [array, self] = this->alloc(machine, elements);
-		(void)self;
-		if (!old_vec.empty()) {
-			std::copy(old_vec.as_array(machine), old_vec.as_array(machine) + old_vec.size(), array);
+		// Allocate new memory (without room for it, the vector is unchanged)
+		const address_t new_begin = guest_heap_allocate(machine, elements, sizeof(T));
+		const std::size_t old_size = size();
+		if (this->ptr_begin != 0) {
+			if (old_size > 0) {
+				T* array = machine.memory.template writable_memarray<T>(new_begin, elements);
+				const T* old_array = machine.memory.template memarray<T>(this->data(), old_size);
+				std::copy(old_array, old_array + old_size, array);
+			}
 			// Free the old vector manually (as we don't want to call the destructor(s))
-			machine.arena().free(old_vec.ptr_begin);
+			machine.arena().free(this->ptr_begin);
 		}
-		this->ptr_end = this->ptr_begin + old_vec.size() * sizeof(T);
+		this->ptr_begin = new_begin;
+		this->ptr_end = new_begin + old_size * sizeof(T);
+		this->ptr_capacity = new_begin + elements * sizeof(T);
 		// Adjust SSO if the vector contains std::string
 		if constexpr (std::is_same_v<T, GuestStdString>) {
 			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
@@ -529,9 +534,11 @@ private:
 	}
 
 	std::tuple<T*, address_t> alloc(Machine& machine, std::size_t elements) {
+		// Without room for the new elements, the old are kept
+		const address_t new_begin = guest_heap_allocate(machine, elements, sizeof(T));
 		this->free(machine);
 
-		this->ptr_begin = machine.arena().malloc(elements * sizeof(T));
+		this->ptr_begin = new_begin;
 		this->ptr_end = this->ptr_begin;
 		this->ptr_capacity = this->ptr_begin + elements * sizeof(T);
 		return { machine.memory.template writable_memarray<T>(this->data(), elements), this->data() };
-- 
2.43.0


From 899e5d73dd7c68c9ffed3d0cbd5df241da08730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 59/87] fix: guest vectors of containers release them when the
 heap runs out of room

---
 lib/libloong/guest_datatypes.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index e559d3b..2d17ba1 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -270,12 +270,17 @@ struct GuestStdVector {
 		// Specialization for std::vector<std::string>
 		auto [array, self] = this->alloc(machine, vec.size());
 		(void)self;
-		for (std::size_t i = 0; i < vec.size(); i++) {
-			T* str = new (&array[i]) T(machine, vec[i]);
-			str->move(this->ptr_begin + i * sizeof(T));
+		try {
+			for (std::size_t i = 0; i < vec.size(); i++) {
+				T* str = new (&array[i]) T(machine, vec[i]);
+				str->move(this->ptr_begin + i * sizeof(T));
+				// The end follows the constructed elements
+				this->ptr_end += sizeof(T);
+			}
+		} catch (...) {
+			this->free(machine);
+			throw;
 		}
-		// Set new end only after all elements are constructed
-		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
 	}
 
 	GuestStdVector(Machine& machine, const std::vector<T>& vec = {})
@@ -361,7 +366,13 @@ struct GuestStdVector {
 	template <typename U>
 	void push_back(Machine& machine, const std::vector<U>& value) {
 		static_assert(is_guest_stdvector<T>::value, "GuestStdVector: T must be a GuestStdVector itself");
-		this->push_back(machine, GuestStdVector<U>(machine, value));
+		GuestStdVector<U> element(machine, value);
+		try {
+			this->push_back(machine, std::move(element));
+		} catch (...) {
+			element.free(machine);
+			throw;
+		}
 	}
 
 	void pop_back(Machine& machine) {
-- 
2.43.0


From 5aba24876904cd2eca39760e8e0545146b903cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 60/87] fix: strings put into a guest vector point to where
 they are stored

---
 lib/libloong/guest_datatypes.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 2d17ba1..a38de95 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -258,6 +258,7 @@ struct GuestStdVector {
 		}
 		// Set new end only after all elements are constructed
 		this->ptr_end = this->ptr_begin + elements * sizeof(T);
+		this->fix_strings(machine, 0);
 	}
 
 	GuestStdVector(Machine& machine, const std::vector<std::string>& vec)
@@ -341,6 +342,7 @@ struct GuestStdVector {
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
 		new (&array[size()]) T(std::move(value));
 		this->ptr_end += sizeof(T);
+		this->fix_strings(machine, size() - 1);
 	}
 
 	void push_back(Machine& machine, const T& value) {
@@ -349,6 +351,7 @@ struct GuestStdVector {
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
 		new (&array[size()]) T(value);
 		this->ptr_end += sizeof(T);
+		this->fix_strings(machine, size() - 1);
 	}
 
 	// Specialization for std::string and std::string_view
@@ -389,6 +392,7 @@ struct GuestStdVector {
 		for (std::size_t i = 0; i < count; i++)
 			new (&array[size() + i]) T(values[i]);
 		this->ptr_end += count * sizeof(T);
+		this->fix_strings(machine, size() - count);
 	}
 
 	void clear(Machine& machine) {
@@ -451,6 +455,7 @@ struct GuestStdVector {
 		(void)self;
 		std::copy(vec.begin(), vec.end(), array);
 		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
+		this->fix_strings(machine, 0);
 	}
 
 	void assign(Machine& machine, const T* values, std::size_t count)
@@ -459,6 +464,7 @@ struct GuestStdVector {
 		(void)self;
 		std::copy(values, values + count, array);
 		this->ptr_end = this->ptr_begin + count * sizeof(T);
+		this->fix_strings(machine, 0);
 	}
 
 	void resize(Machine& machine, std::size_t new_size)
@@ -470,10 +476,12 @@ struct GuestStdVector {
 		} else if (new_size > size()) {
 			if (new_size > capacity())
 				this->reserve(machine, new_size);
+			const std::size_t old_size = size();
 			T* array = machine.memory.template writable_memarray<T>(this->data(), new_size);
-			for (std::size_t i = size(); i < new_size; i++)
+			for (std::size_t i = old_size; i < new_size; i++)
 				new (&array[i]) T();
 			this->ptr_end = this->ptr_begin + new_size * sizeof(T);
+			this->fix_strings(machine, old_size);
 		}
 	}
 
@@ -497,12 +505,7 @@ struct GuestStdVector {
 		this->ptr_begin = new_begin;
 		this->ptr_end = new_begin + old_size * sizeof(T);
 		this->ptr_capacity = new_begin + elements * sizeof(T);
-		// Adjust SSO if the vector contains std::string
-		if constexpr (std::is_same_v<T, GuestStdString>) {
-			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
-			for (std::size_t i = 0; i < size(); i++)
-				array[i].move(this->ptr_begin + i * sizeof(T));
-		}
+		this->fix_strings(machine, 0);
 	}
 
 	void free(Machine& machine) {
@@ -540,6 +543,17 @@ struct GuestStdVector {
 	std::size_t capacity_bytes() const noexcept { return ptr_capacity - ptr_begin; }
 
 private:
+	// Adjust SSO of the elements from the given one on, if the vector contains std::string
+	void fix_strings(Machine& machine, std::size_t from) {
+		if constexpr (std::is_same_v<T, GuestStdString>) {
+			if (from < size()) {
+				T* array = machine.memory.template writable_memarray<T>(this->data(), size());
+				for (std::size_t i = from; i < size(); i++)
+					array[i].move(this->ptr_begin + i * sizeof(T));
+			}
+		}
+	}
+
 	void increase_capacity(Machine& machine) {
 		this->reserve(machine, capacity() * 2 + 4);
 	}
-- 
2.43.0


From b09784d96ffa880525a89074936105d9a68d2739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 61/87] fix: an empty guest vector can be viewed and appended
 nothing

---
 lib/libloong/guest_datatypes.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index a38de95..decafde 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -386,6 +386,8 @@ struct GuestStdVector {
 	}
 
 	void append(Machine& machine, const T* values, std::size_t count) {
+		if (count == 0)
+			return;
 		if (size_bytes() + count * sizeof(T) > capacity_bytes())
 			this->reserve(machine, size() + count);
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + count);
@@ -410,12 +412,16 @@ struct GuestStdVector {
 	T* as_array(Machine& machine, std::size_t max_bytes = 16UL << 20) {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (empty())
+			return nullptr;
 		return machine.memory.template writable_memarray<T>(data(), size());
 	}
 
 	const T* as_array(const Machine& machine, std::size_t max_bytes = 16UL << 20) const {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (empty())
+			return nullptr;
 		return machine.memory.template memarray<T>(data(), size());
 	}
 
@@ -426,6 +432,8 @@ struct GuestStdVector {
 	std::vector<T> to_vector(const Machine& machine) const {
 		if (size_bytes() > capacity_bytes())
 			throw std::runtime_error("Guest std::vector has size > capacity");
+		if (empty())
+			return {};
 		// Copy the vector from guest memory
 		const size_t elements = size();
 		const T* array = machine.memory.template memarray<T>(data(), elements);
@@ -438,6 +446,8 @@ struct GuestStdVector {
 	std::vector<std::string> to_string_vector(const Machine& machine) const {
 		if constexpr (std::is_same_v<T, GuestStdString>) {
 			std::vector<std::string> vec;
+			if (empty())
+				return vec;
 			const size_t elements = size();
 			const T* array = machine.memory.template memarray<T>(data(), elements);
 			vec.reserve(elements);
@@ -761,12 +771,16 @@ struct GuestRustVector {
 	T* as_array(Machine& machine, std::size_t max_bytes = 16UL << 20) {
 		if (len * sizeof(T) > max_bytes)
 			throw std::runtime_error("Guest Rust Vec has size > max_bytes");
+		if (empty())
+			return nullptr;
 		return machine.memory.template writable_memarray<T>(data(), len);
 	}
 
 	const T* as_array(const Machine& machine, std::size_t max_bytes = 16UL << 20) const {
 		if (len * sizeof(T) > max_bytes)
 			throw std::runtime_error("Guest Rust Vec has size > max_bytes");
+		if (empty())
+			return nullptr;
 		return machine.memory.template memarray<T>(data(), len);
 	}
 
-- 
2.43.0


From 2e416be0fa45d5bbcd6cec65c8e8e7bd86f648a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 62/87] fix: move-assigning a guest vector does not leave two
 owners of its storage

---
 lib/libloong/guest_datatypes.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index decafde..05c51a5 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -4,6 +4,7 @@
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <utility>
 #include <vector>
 #include <array>
 
@@ -305,6 +306,14 @@ struct GuestStdVector {
 		other.ptr_capacity = 0;
 	}
 
+	// The other vector takes over our storage, as there is no machine to release it with
+	GuestStdVector& operator=(GuestStdVector&& other) noexcept {
+		std::swap(ptr_begin, other.ptr_begin);
+		std::swap(ptr_end, other.ptr_end);
+		std::swap(ptr_capacity, other.ptr_capacity);
+		return *this;
+	}
+
 	// Copying is intentionally shallow/fast, in order to avoid copying/duplication
 	// Use std::move if you need proper semantics
 	GuestStdVector(const GuestStdVector& other) = default;
-- 
2.43.0


From 3d02a27e5b40046aa2d12e1e0b034d73cbc6fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 63/87] fix: guest vectors release the Rust strings they
 contain

---
 lib/libloong/guest_datatypes.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 05c51a5..37f081b 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -589,7 +589,8 @@ private:
 	}
 
 	void free_element(Machine& machine, std::size_t index) {
-		if constexpr (std::is_same_v<T, GuestStdString> || is_guest_stdvector<T>::value) {
+		if constexpr (std::is_same_v<T, GuestStdString> || is_guest_stdvector<T>::value ||
+		              std::is_same_v<T, GuestRustString> || is_guest_rustvector<T>::value) {
 			this->at(machine, index).free(machine);
 		} else {
 			this->at(machine, index).~T();
@@ -719,7 +720,7 @@ struct GuestRustVector {
 		: len(0), ptr(0), capacity(0)
 	{
 		if (elements > 0) {
-			this->ptr = machine.arena().malloc(elements * sizeof(T));
+			this->ptr = guest_heap_allocate(machine, elements, sizeof(T));
 			this->capacity = elements;
 			this->len = elements;
 			T* array = machine.memory.template writable_memarray<T>(this->ptr, elements);
@@ -737,12 +738,17 @@ struct GuestRustVector {
 			return;
 
 		// Specialization for std::vector<std::string>
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
+		this->ptr = guest_heap_allocate(machine, vec.size(), sizeof(T));
 		this->capacity = vec.size();
-		this->len = vec.size();
 		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
-		for (std::size_t i = 0; i < vec.size(); i++) {
-			new (&array[i]) T(machine, vec[i]);
+		try {
+			for (std::size_t i = 0; i < vec.size(); i++) {
+				new (&array[i]) T(machine, vec[i]);
+				this->len = i + 1;
+			}
+		} catch (...) {
+			this->free(machine);
+			throw;
 		}
 	}
 
@@ -802,11 +808,13 @@ struct GuestRustVector {
 
 	void assign(Machine& machine, const std::vector<T>& vec)
 	{
+		// Without room for the new elements, the old are kept
+		const address_t new_ptr = vec.empty() ? 0 : guest_heap_allocate(machine, vec.size(), sizeof(T));
 		this->free(machine);
 		if (vec.empty())
 			return;
 
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
+		this->ptr = new_ptr;
 		this->capacity = vec.size();
 		this->len = vec.size();
 		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
@@ -817,6 +825,10 @@ struct GuestRustVector {
 
 	void free(Machine& machine) {
 		if (this->ptr != 0) {
+			if constexpr (std::is_same_v<T, GuestRustString> || is_guest_rustvector<T>::value) {
+				for (std::size_t i = 0; i < this->len; i++)
+					this->at(machine, i).free(machine);
+			}
 			machine.arena().free(this->ptr);
 			this->ptr = 0;
 			this->capacity = 0;
-- 
2.43.0


From 00707fab0ac9943c9fd1e9ef9c4f304a52c0050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 64/87] fix: scoped guest objects release everything they own
 exactly once

---
 lib/libloong/guest_datatypes.hpp | 68 ++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 37f081b..60dd32c 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -609,27 +609,17 @@ struct ScopedArenaObject {
 		if (this->m_addr == 0) {
 			throw std::bad_alloc();
 		}
-		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
-
-		// Construct the object
-		if constexpr (std::is_same_v<T, GuestStdString> || std::is_same_v<T, GuestRustString>) {
-			new (m_ptr) T(machine, std::forward<Args>(args)...);
-		} else if constexpr (is_guest_stdvector<T>::value || is_guest_rustvector<T>::value) {
-			new (m_ptr) T(machine, std::forward<Args>(args)...);
-		} else {
-			// Construct the object in place (as if trivially constructible)
-			new (m_ptr) T{std::forward<Args>(args)...};
-		}
-
-		// Fix addresses if the type supports it
-		if constexpr (has_fix_addresses<T>::value) {
-			this->m_ptr->fix_addresses(machine, this->m_addr);
+		// Nobody else releases the memory when the construction fails
+		try {
+			this->construct(std::forward<Args>(args)...);
+		} catch (...) {
+			m_machine->arena().free(this->m_addr);
+			throw;
 		}
 	}
 
 	~ScopedArenaObject() {
-		this->free_standard_types();
-		m_machine->arena().free(this->m_addr);
+		this->free_object();
 	}
 
 	T& operator*() { return *m_ptr; }
@@ -640,11 +630,14 @@ struct ScopedArenaObject {
 	ScopedArenaObject& operator=(const ScopedArenaObject&) = delete;
 
 	ScopedArenaObject& operator=(const T& other) {
-		// It's not possible for m_addr to be 0 here, as it would have thrown in the constructor
+		if (&other == this->m_ptr)
+			return *this;
 		this->free_standard_types();
 		this->allocate_if_null();
-		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
 		new (m_ptr) T(other);
+		if constexpr (has_fix_addresses<T>::value) {
+			this->m_ptr->fix_addresses(*m_machine, this->m_addr);
+		}
 		return *this;
 	}
 
@@ -666,7 +659,9 @@ struct ScopedArenaObject {
 	}
 
 	ScopedArenaObject& operator=(ScopedArenaObject&& other) {
-		this->free_standard_types();
+		if (this == &other)
+			return *this;
+		this->free_object();
 		this->m_machine = other.m_machine;
 		this->m_addr = other.m_addr;
 		this->m_ptr = other.m_ptr;
@@ -676,6 +671,35 @@ struct ScopedArenaObject {
 	}
 
 private:
+	template <typename... Args>
+	void construct(Args&&... args) {
+		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
+
+		// Construct the object
+		if constexpr (std::is_same_v<T, GuestStdString> || std::is_same_v<T, GuestRustString>) {
+			new (m_ptr) T(*m_machine, std::forward<Args>(args)...);
+		} else if constexpr (is_guest_stdvector<T>::value || is_guest_rustvector<T>::value) {
+			new (m_ptr) T(*m_machine, std::forward<Args>(args)...);
+		} else {
+			// Construct the object in place (as if trivially constructible)
+			new (m_ptr) T{std::forward<Args>(args)...};
+		}
+
+		// Fix addresses if the type supports it
+		if constexpr (has_fix_addresses<T>::value) {
+			this->m_ptr->fix_addresses(*m_machine, this->m_addr);
+		}
+	}
+
+	void free_object() {
+		if (this->m_addr != 0) {
+			this->free_standard_types();
+			m_machine->arena().free(this->m_addr);
+			this->m_addr = 0;
+			this->m_ptr = nullptr;
+		}
+	}
+
 	void allocate_if_null() {
 		if (this->m_addr == 0) {
 			this->m_addr = m_machine->arena().malloc(sizeof(T));
@@ -683,6 +707,10 @@ private:
 				throw std::bad_alloc();
 			}
 			this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
+			// The memory may contain anything
+			if constexpr (std::is_default_constructible_v<T>) {
+				new (m_ptr) T();
+			}
 		}
 	}
 
-- 
2.43.0


From d423b6a3b36611373b516da0ee11869d216fabb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:47 +0000
Subject: [PATCH 65/87] fix: machines set up in several threads do not write
 the handler table at once

---
 lib/libloong/machine.hpp        | 2 ++
 lib/libloong/machine_inline.hpp | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index d40eb95..c7bf429 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <functional>
 #include <memory>
+#include <mutex>
 
 namespace loongarch
 {
@@ -186,6 +187,7 @@ namespace loongarch
 		std::unique_ptr<MultiThreading> m_mt;
 		std::exception_ptr m_current_exception = nullptr;
 		static inline std::array<syscall_t*, LA_SYSCALLS_MAX> m_syscall_handlers = {};
+		static inline std::mutex m_syscall_handlers_mutex;
 		static inline unknown_syscall_t* m_unknown_syscall_handler = nullptr;
 		static inline rdtime_callback_t* m_rdtime_handler = nullptr;
 
diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index 27439e8..6d415a8 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -28,7 +28,11 @@ namespace loongarch
 	inline void Machine::install_syscall_handler(unsigned syscall_number, syscall_t* handler)
 	{
 		if (syscall_number < m_syscall_handlers.size()) {
-			m_syscall_handlers[syscall_number] = handler;
+			// Machines in other threads may be using the handlers that
+			// are already installed, which are not written again
+			std::lock_guard<std::mutex> lock(m_syscall_handlers_mutex);
+			if (m_syscall_handlers[syscall_number] != handler)
+				m_syscall_handlers[syscall_number] = handler;
 		}
 	}
 
-- 
2.43.0


From 292c52b17f04a786ec6d32d788659bf96963ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 66/87] fix: disassembling VMAX and VMIN wrote a buffer shared
 by all machines

---
 lib/libloong/la_instr_printers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index eed0701..847be9c 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -1735,16 +1735,15 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 
 		// Determine size and signedness
 		const char* suffix;
+		char buf_suffix[4];
 		if (bits15 >= 0xE0E0 && bits15 <= 0xE0E3) {
 			// Signed: 0xE0E0-E0E3
 			char size = sizes[bits15 - 0xE0E0];
-			static char buf_suffix[4];
 			snprintf(buf_suffix, sizeof(buf_suffix), ".%c", size);
 			suffix = buf_suffix;
 		} else {
 			// Unsigned: 0xE0E8-E0EB
 			char size = sizes[bits15 - 0xE0E8];
-			static char buf_suffix[4];
 			snprintf(buf_suffix, sizeof(buf_suffix), ".%cu", size);
 			suffix = buf_suffix;
 		}
@@ -1760,16 +1759,15 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 
 		// Determine size and signedness
 		const char* suffix;
+		char buf_suffix[4];
 		if (bits15 >= 0xE0E4 && bits15 <= 0xE0E7) {
 			// Signed: 0xE0E4-E0E7
 			char size = sizes[bits15 - 0xE0E4];
-			static char buf_suffix[4];
 			snprintf(buf_suffix, sizeof(buf_suffix), ".%c", size);
 			suffix = buf_suffix;
 		} else {
 			// Unsigned: 0xE0EC-E0EF
 			char size = sizes[bits15 - 0xE0EC];
-			static char buf_suffix[4];
 			snprintf(buf_suffix, sizeof(buf_suffix), ".%cu", size);
 			suffix = buf_suffix;
 		}
-- 
2.43.0


From 02802bea568431ddd65f207f6d2d8ab26abe5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 67/87] fix: guest memory accesses of any alignment do not
 fault in the host

A 256-bit vector load or store used the guest address as a pointer to a
type aligned to 32 bytes: the host CPU faulted on other addresses.
---
 lib/libloong/memory_inline.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index 207ac54..29878a1 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -20,7 +20,10 @@ inline T Memory::read(address_t addr) const
 		}
 	}
 
-	return *reinterpret_cast<const T*>(&m_arena[addr]);
+	// The address may have any alignment, also one the type does not allow
+	T value;
+	std::memcpy(&value, &m_arena[addr], sizeof(T));
+	return value;
 }
 
 template <typename T, bool EnableSegReg>
@@ -38,7 +41,7 @@ inline void Memory::write(address_t addr, T value)
 		}
 	}
 
-	*reinterpret_cast<T*>(&m_arena[addr]) = value;
+	std::memcpy(&m_arena[addr], &value, sizeof(T));
 }
 
 template <typename T>
-- 
2.43.0


From 9a074804bc7125fe6ccd45769e1e9fa7920cb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:42 +0000
Subject: [PATCH 68/87] fix: fused multiply-add instructions round once and the
 vector ones negate what they should

The product was rounded before the addition, VFNMADD and XVFMSUB computed
fa - fj * fk and XVFNMSUB computed -(fj * fk + fa).
---
 lib/libloong/bytecode_impl.cpp                |   6 +-
 lib/libloong/la_instr_impl.hpp                | 100 +++++++++---------
 lib/libloong/tailcall_dispatch.cpp            |   1 +
 lib/libloong/tailcall_inaccurate_dispatch.cpp |   1 +
 lib/libloong/threaded_dispatch.cpp            |   1 +
 lib/libloong/threaded_inaccurate_dispatch.cpp |   1 +
 6 files changed, 57 insertions(+), 53 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 5ca69ab..caf9a09 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -615,8 +615,8 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 	const auto& src_k = REGISTERS().getvr(fi.rk);
 	const auto& src_a = REGISTERS().getvr(fi.ra);
 
-	dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-	dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+	dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+	dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 	NEXT_INSTR();
 }
 
@@ -689,7 +689,7 @@ INSTRUCTION(LA64_BC_FMADD_D, la64_fmadd_d)
 	const auto& vr_a = REGISTERS().getvr(fi.ra);
 	auto& vr_d = REGISTERS().getvr(fi.rd);
 
-	vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+	vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 7eff56d..9725e34 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1422,23 +1422,23 @@ struct InstrImpl {
 	}
 
 	static void FMADD_S(cpu_t& cpu, la_instruction instr) {
-		// Fused multiply-add (single precision): fd = fa + fj * fk
+		// Fused multiply-add (single precision): fd = fj * fk + fa
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] + vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FMSUB_S(cpu_t& cpu, la_instruction instr) {
-		// Fused multiply-subtract (single precision): fd = fk * fj - fa
+		// Fused multiply-subtract (single precision): fd = fj * fk - fa
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_k.f[0] * vr_j.f[0] - vr_a.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FLDX_S(cpu_t& cpu, la_instruction instr) {
@@ -1473,63 +1473,63 @@ struct InstrImpl {
 	}
 
 	static void FMSUB_D(cpu_t& cpu, la_instruction instr) {
-		// Fused multiply-subtract (double precision): fd = fk * fj - fa
+		// Fused multiply-subtract (double precision): fd = fj * fk - fa
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_k.df[0] * vr_j.df[0] - vr_a.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void FMADD_D(cpu_t& cpu, la_instruction instr) {
-		// Fused multiply-add (double precision): fd = fd + fj * fk
+		// Fused multiply-add (double precision): fd = fj * fk + fa
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMADD_S(cpu_t& cpu, la_instruction instr) {
-		// Fused negative multiply-add (single precision): fd = -(fa + fj * fk)
+		// Fused negative multiply-add (single precision): fd = -(fj * fk + fa)
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = -(vr_a.f[0] + vr_j.f[0] * vr_k.f[0]);
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FNMADD_D(cpu_t& cpu, la_instruction instr) {
-		// Fused negative multiply-add (double precision): fd = -(fa + fj * fk)
+		// Fused negative multiply-add (double precision): fd = -(fj * fk + fa)
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = -(vr_a.df[0] + vr_j.df[0] * vr_k.df[0]);
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMSUB_S(cpu_t& cpu, la_instruction instr) {
-		// Fused negative multiply-subtract (single precision): fd = -(fj * fk - fa) = fa - fj * fk
+		// Fused negative multiply-subtract (single precision): fd = -(fj * fk - fa)
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] - vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FNMSUB_D(cpu_t& cpu, la_instruction instr) {
-		// Fused negative multiply-subtract (double precision): fd = -(fj * fk - fa) = fa - fj * fk
+		// Fused negative multiply-subtract (double precision): fd = -(fj * fk - fa)
 		// 4R-type: fd[4:0], fj[9:5], fk[14:10], fa[19:15]
 		const auto& vr_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] - vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void CLO_W(cpu_t& cpu, la_instruction instr) {
@@ -2902,14 +2902,14 @@ struct InstrImpl {
 
 	static void VFMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFMADD.D: Vector fused multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = va + vj * vk
+		// 4R-type format: vd = vj * vk + va
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2917,14 +2917,14 @@ struct InstrImpl {
 
 	static void VFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFNMADD.D: Vector fused negative multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = -(vj * vk) + va = va - vj * vk
+		// 4R-type format: vd = -(vj * vk + va)
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -3897,7 +3897,7 @@ struct InstrImpl {
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMADD.S: LASX vector fused multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = xa + xj * xk
+		// 4R-type format: xd = xj * xk + xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3909,13 +3909,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] + src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
 	static void XVFMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMADD.D: LASX vector fused multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = xa + xj * xk
+		// 4R-type format: xd = xj * xk + xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3926,15 +3926,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] + src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] + src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.S: LASX vector fused multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3946,13 +3946,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.D: LASX vector fused multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3963,15 +3963,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVFNMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.S: LASX vector fused negative multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3983,13 +3983,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
 	static void XVFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.D: LASX vector fused negative multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4000,15 +4000,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFNMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.S: LASX vector fused negative multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4020,13 +4020,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = -(src_a.f[i] + src_j.f[i] * src_k.f[i]);
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFNMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.D: LASX vector fused negative multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4037,10 +4037,10 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
-		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
-		dst.df[2] = -(src_a.df[2] + src_j.df[2] * src_k.df[2]);
-		dst.df[3] = -(src_a.df[3] + src_j.df[3] * src_k.df[3]);
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVORI_B(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index e9d2745..cb7f237 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 #include "instruction_counter.hpp"
 
 #define MUSTTAIL __attribute__((musttail))
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index be3da34..281f8db 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define MUSTTAIL __attribute__((musttail))
 #define MUNUSED  [[maybe_unused]]
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 0644706..358aeb6 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define DECODER()   (*decoder)
 #define CPU()       (*this)
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index d6532b4..53f7541 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define DECODER()   (*decoder)
 #define CPU()       (*this)
-- 
2.43.0


From 369b0dd59a00f2ee66b0d473b7a0b0902bdf47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:42 +0000
Subject: [PATCH 69/87] fix: conversions of floating-point values out of the
 integer range saturate

The conversion had undefined behaviour in the host for NaN, infinities and
values the integer type cannot hold.
---
 lib/libloong/la_instr_impl.hpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 9725e34..8ae4231 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2,6 +2,7 @@
 #include "cpu.hpp"
 #include "la_instr.hpp"
 #include <cmath>
+#include <limits>
 
 namespace loongarch {
 
@@ -10,6 +11,17 @@ struct InstrImpl {
 	using addr_t = address_t;
 	using saddr_t = std::make_signed_t<addr_t>;
 
+	// Rounds towards zero. Values out of range give the nearest integer, NaN gives zero.
+	template <typename Integer, typename Float>
+	static Integer truncate_to_integer(Float value) {
+		constexpr Float limit = -static_cast<Float>(std::numeric_limits<Integer>::min());
+		if (std::isnan(value)) return 0;
+		value = std::trunc(value);
+		if (value >= limit) return std::numeric_limits<Integer>::max();
+		if (value < -limit) return std::numeric_limits<Integer>::min();
+		return static_cast<Integer>(value);
+	}
+
 	// === Arithmetic Instructions ===
 
 	static void ADD_W(cpu_t& cpu, la_instruction instr) {
@@ -1284,7 +1296,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.f[0]));
+		int32_t int_val = truncate_to_integer<int32_t>(vr_j.f[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1296,7 +1308,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.df[0]));
+		int32_t int_val = truncate_to_integer<int32_t>(vr_j.df[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1308,7 +1320,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.f[0]));
+		int64_t int_val = truncate_to_integer<int64_t>(vr_j.f[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -1320,7 +1332,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.df[0]));
+		int64_t int_val = truncate_to_integer<int64_t>(vr_j.df[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -2875,10 +2887,10 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each single-precision float to int32 with truncation towards zero
-		dst.w[0] = (int32_t)src.f[0];
-		dst.w[1] = (int32_t)src.f[1];
-		dst.w[2] = (int32_t)src.f[2];
-		dst.w[3] = (int32_t)src.f[3];
+		dst.w[0] = truncate_to_integer<int32_t>(src.f[0]);
+		dst.w[1] = truncate_to_integer<int32_t>(src.f[1]);
+		dst.w[2] = truncate_to_integer<int32_t>(src.f[2]);
+		dst.w[3] = truncate_to_integer<int32_t>(src.f[3]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2893,8 +2905,8 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each double-precision float to int64 with truncation towards zero
-		dst.d[0] = (int64_t)src.df[0];
-		dst.d[1] = (int64_t)src.df[1];
+		dst.d[0] = truncate_to_integer<int64_t>(src.df[0]);
+		dst.d[1] = truncate_to_integer<int64_t>(src.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
-- 
2.43.0


From 00b197327e258443ce6d211fc6581dfa00fcf1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 70/87] fix: vector instructions decode by their own encodings

Several vector encodings were taken for other instructions or matched
words of instructions that are not implemented, which then executed as
something else instead of being reported as unimplemented.
---
 lib/libloong/la64.cpp | 143 +++++++++++++++++++-----------------------
 1 file changed, 66 insertions(+), 77 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 8baa659..759d991 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -951,19 +951,19 @@ namespace loongarch
 				// VORI.B: Vector OR immediate (byte) - bits[31:18] = 0x1CF5
 				if ((instr.whole >> 18) == 0x1CF5) return DECODED_INSTR(VORI_B);
 				// VSLLI: Vector Shift Left Logical Immediate - bits[31:15] identify size
-				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:15] = 0xE660
-				// VPCNT: Vector Population Count - bits[31:15] = 0xE538, bits[14:10] select size
+				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:16] = 0x7319
+				// VPCNT: Vector Population Count - bits[31:12] = 0x729C2, bits[11:10] select size
 				uint32_t bits15 = instr.whole >> 15;
 				if (bits15 == 0xE658) {
 					// vslli.b and vslli.h both have bits[31:15] = 0xe658, differentiate by bit 14
 					uint32_t bit14 = (instr.whole >> 14) & 1;
-					if (bit14 == 0) return DECODED_INSTR(VSLLI_B);
-					else return DECODED_INSTR(VSLLI_H);
+					if (bit14 == 1) return DECODED_INSTR(VSLLI_H);
+					if ((instr.whole >> 13) & 1) return DECODED_INSTR(VSLLI_B);
 				}
 				if (bits15 == 0xE659) return DECODED_INSTR(VSLLI_W);
-				if (bits15 == 0xE65A) return DECODED_INSTR(VSLLI_D);
-				if (bits15 == 0xE660) return DECODED_INSTR(VBITREVI_D);
-				if (bits15 == 0xE538) {
+				if ((bits15 & ~1u) == 0xE65A) return DECODED_INSTR(VSLLI_D);
+				if (top16 == 0x7319) return DECODED_INSTR(VBITREVI_D);
+				if ((instr.whole >> 12) == 0x729C2) {
 					uint32_t size = (instr.whole >> 10) & 0x3;
 					if (size == 0) return DECODED_INSTR(VPCNT_B);
 					if (size == 1) return DECODED_INSTR(VPCNT_H);
@@ -1016,8 +1016,8 @@ namespace loongarch
 					return DECODED_INSTR(VILVL_D);
 				}
 				// VILVH.D: Vector Interleave High Double-word
-				// bits[31:15] = 0xE23F
-				if ((instr.whole >> 15) == 0xE23F) {
+				// bits[31:15] = 0xE23B
+				if ((instr.whole >> 15) == 0xE23B) {
 					return DECODED_INSTR(VILVH_D);
 				}
 				// VPICKEV.W: Vector Pick Even Word
@@ -1026,33 +1026,30 @@ namespace loongarch
 					return DECODED_INSTR(VPICKEV_W);
 				}
 				// VPICKVE2GR instructions: signed (0x72EF) and unsigned (0x72F3)
-				// bits[15:12] determine size: 0x8=B, 0xC=H, 0xE=W, 0xF=D
+				// bits[15:10] hold a size prefix and the index: 10=B, 110=H, 1110=W, 11110=D
 				if (top16 == 0x72EF) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_B);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_H);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_D);
+					uint32_t subop = (instr.whole >> 10) & 0x3F;
+					if ((subop >> 4) == 0x2) return DECODED_INSTR(VPICKVE2GR_B);
+					if ((subop >> 3) == 0x6) return DECODED_INSTR(VPICKVE2GR_H);
+					if ((subop >> 2) == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
+					if ((subop >> 1) == 0x1E) return DECODED_INSTR(VPICKVE2GR_D);
 				}
 				if (top16 == 0x72F3) {
-					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_BU);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_HU);
-					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_DU);
-				}
-				// VREPLVEI.D: 0x72F7xxxx (Vector Replicate Vector Element Immediate - double)
-				if (top16 == 0x72F7) {
+					uint32_t subop = (instr.whole >> 10) & 0x3F;
+					if ((subop >> 4) == 0x2) return DECODED_INSTR(VPICKVE2GR_BU);
+					if ((subop >> 3) == 0x6) return DECODED_INSTR(VPICKVE2GR_HU);
+					if ((subop >> 2) == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
+					if ((subop >> 1) == 0x1E) return DECODED_INSTR(VPICKVE2GR_DU);
+				}
+				// VREPLVEI.D: bits[31:11] = 0x72F7F000 >> 11 (Vector Replicate Vector Element Immediate - double)
+				if ((instr.whole >> 11) == (0x72F7F000u >> 11)) {
 					return DECODED_INSTR(VREPLVEI_D);
 				}
 				if (top16 == 0x729C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x28) return DECODED_INSTR(VSETANYEQZ_B);
 					if (subop == 0x18) return DECODED_INSTR(VMSKNZ_B);
-				}
-				if (top16 == 0x729D) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x18) return DECODED_INSTR(VSETALLNEZ_B);
+					if (subop == 0x2C) return DECODED_INSTR(VSETALLNEZ_B);
 				}
 				// VREPLGR2VR: 0x729F0xxx
 				// .B (subop=0x00), .H (subop=0x01), .W (subop=0x02), .D (subop=0x03)
@@ -1196,15 +1193,9 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE534) {
 					return DECODED_INSTR(VFRSTPI_B);
 				}
-				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:15] = 0xE53C
-				if ((instr.whole >> 15) == 0xE53C) {
-					// Differentiate by bit 10
-					if ((instr.whole >> 10) & 1) {
-						return DECODED_INSTR(VFTINTRZ_L_D);
-					} else {
-						return DECODED_INSTR(VFTINTRZ_W_S);
-					}
-				}
+				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:10] = 0x1CA792 / 0x1CA793
+				if ((instr.whole >> 10) == 0x1CA792) return DECODED_INSTR(VFTINTRZ_W_S);
+				if ((instr.whole >> 10) == 0x1CA793) return DECODED_INSTR(VFTINTRZ_L_D);
 				// VXOR.V: bits[31:15] = 0xE24E
 				if ((instr.whole >> 15) == 0xE24E) {
 					return DECODED_INSTR(VXOR_V);
@@ -1234,25 +1225,25 @@ namespace loongarch
 
 				// XVMSKNZ.B: 0x769C6xxx (bits[31:16] = 0x769C, bits[15:10] = 0x18)
 				// XVSETANYEQZ.B: 0x769CAxx (bits[31:16] = 0x769C, bits[15:10] = 0x28)
-				// XVSETEQZ.V: 0x769CBxxx (bits[31:16] = 0x769C, bits[15:10] = 0x2C)
+				// XVSETEQZ.V: 0x769C98xx (bits[31:16] = 0x769C, bits[15:10] = 0x26)
 				if (top16 == 0x769C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x18) return DECODED_INSTR(XVMSKNZ_B);
 					if (subop == 0x28) return DECODED_INSTR(XVSETANYEQZ_B);
-					if (subop == 0x2C) return DECODED_INSTR(XVSETEQZ_V);
+					if (subop == 0x26) return DECODED_INSTR(XVSETEQZ_V);
 				}
 				// XVREPLGR2VR.B: 0x769F0xxx (bits[31:16] = 0x769F, bits[15:10] = 0x00)
 				if (top16 == 0x769F) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x00) return DECODED_INSTR(XVREPLGR2VR_B);
 				}
-				// XVPICKVE.W: 0x7703Dxxx (bits[31:16] = 0x7703, bits[15:10] = 0x34)
+				// XVPICKVE.W: bits[31:16] = 0x7703, bits[15:13] = 110, bits[12:10] = index
 				if (top16 == 0x7703) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x34) return DECODED_INSTR(XVPICKVE_W);
+					if ((subop >> 3) == 0x6) return DECODED_INSTR(XVPICKVE_W);
 				}
-				// XVSEQ.B: bits[31:15] = 0xEE00
-				if ((instr.whole >> 15) == 0xEE00) {
+				// XVSEQ.B: bits[31:15] = 0xE800
+				if ((instr.whole >> 15) == 0xE800) {
 					return DECODED_INSTR(XVSEQ_B);
 				}
 				// XVXOR.V: bits[31:15] = 0xEA4E
@@ -1283,13 +1274,13 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE8EC) {
 					return DECODED_INSTR(XVMIN_BU);
 				}
-				// XVMAX.BU: bits[31:15] = 0xE8ED
-				if ((instr.whole >> 15) == 0xE8ED) {
+				// XVMAX.BU: bits[31:15] = 0xE8E8
+				if ((instr.whole >> 15) == 0xE8E8) {
 					return DECODED_INSTR(XVMAX_BU);
 				}
-				// XVPICKVE2GR.W: bits[31:18] = 0x1DBB (0x76EFxxxx)
+				// XVPICKVE2GR.W: bits[31:13] = 0x76EFC000 >> 13
 				// Pick word element from LASX vector to general register
-				if ((instr.whole >> 18) == 0x1DBB) {
+				if ((instr.whole >> 13) == (0x76EFC000u >> 13)) {
 					return DECODED_INSTR(XVPICKVE2GR_W);
 				}
 				// XVPERMI.Q: LASX permute quadword - bits[31:18] = 0x1DFB
@@ -1309,46 +1300,44 @@ namespace loongarch
 				// XVFSUB.D: LASX vector floating-point subtract (double) - bits[31:15] = 0xEA66
 				// Opcode: 0x75330000 >> 15 = 0xEA66
 				if ((instr.whole >> 15) == 0xEA66) return DECODED_INSTR(XVFSUB_D);
-				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:15] = 0xEE32
-				// Opcode: 0x77190000 >> 15 = 0xEE32
-				if ((instr.whole >> 15) == 0xEE32) return DECODED_INSTR(XVBITREVI_D);
+				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:16] = 0x7719
+				if (top16 == 0x7719) return DECODED_INSTR(XVBITREVI_D);
 				// XVREPLVE.D: LASX vector replicate element (double) - bits[31:15] = 0xEA47
 				// Opcode: 0x75238000 >> 15 = 0xEA47
 				if ((instr.whole >> 15) == 0xEA47) return DECODED_INSTR(XVREPLVE_D);
-				// XVORI.B: LASX vector OR immediate byte - bits[31:15] = 0xEFA8
-				// Opcode: 0x77d40000 >> 15 = 0xEFA8
-				if ((instr.whole >> 15) == 0xEFA8) return DECODED_INSTR(XVORI_B);
-				// XVXORI.B: LASX vector XOR immediate byte - bits[31:15] = 0xEFB0
-				// Opcode: 0x77d80000 >> 15 = 0xEFB0
-				if ((instr.whole >> 15) == 0xEFB0) return DECODED_INSTR(XVXORI_B);
+				// XVORI.B: LASX vector OR immediate byte - bits[31:18] = 0x1DF5
+				// Opcode: 0x77d40000 >> 18 = 0x1DF5
+				if ((instr.whole >> 18) == 0x1DF5) return DECODED_INSTR(XVORI_B);
+				// XVXORI.B: LASX vector XOR immediate byte - bits[31:18] = 0x1DF6
+				// Opcode: 0x77d80000 >> 18 = 0x1DF6
+				if ((instr.whole >> 18) == 0x1DF6) return DECODED_INSTR(XVXORI_B);
 				// XVILVL.D: LASX vector interleave low double-word - bits[31:15] = 0xEA37
 				// Opcode: 0x751b8000 >> 15 = 0xEA37
 				if ((instr.whole >> 15) == 0xEA37) return DECODED_INSTR(XVILVL_D);
-				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3F
-				// Opcode: 0x751f8000 >> 15 = 0xEA3F
-				if ((instr.whole >> 15) == 0xEA3F) return DECODED_INSTR(XVILVH_D);
-				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dc1
-				// Opcode: 0x7707e000 >> 18 = 0x1dc1
-				if ((instr.whole >> 18) == 0x1dc1) return DECODED_INSTR(XVPERMI_D);
-				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea66
-				// Opcode: 0x75330000 >> 15 = 0xea66
-				if ((instr.whole >> 15) == 0xea66) return DECODED_INSTR(XVPACKEV_D);
-				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xee33
-				// Opcode: 0x77198000 >> 15 = 0xee33
-				if ((instr.whole >> 15) == 0xee33) return DECODED_INSTR(XVPACKOD_D);
-				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xee07
-				// Opcode: 0x7703c000 >> 15 = 0xee07
-				if ((instr.whole >> 15) == 0xee07) return DECODED_INSTR(XVPICKEV_D);
+				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3B
+				// Opcode: 0x751d8000 >> 15 = 0xEA3B
+				if ((instr.whole >> 15) == 0xEA3B) return DECODED_INSTR(XVILVH_D);
+				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dfa
+				// Opcode: 0x77e80000 >> 18 = 0x1dfa
+				if ((instr.whole >> 18) == 0x1dfa) return DECODED_INSTR(XVPERMI_D);
+				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea2f
+				// Opcode: 0x75178000 >> 15 = 0xea2f
+				if ((instr.whole >> 15) == 0xea2f) return DECODED_INSTR(XVPACKEV_D);
+				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xea33
+				// Opcode: 0x75198000 >> 15 = 0xea33
+				if ((instr.whole >> 15) == 0xea33) return DECODED_INSTR(XVPACKOD_D);
+				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xea3f
+				// Opcode: 0x751f8000 >> 15 = 0xea3f
+				if ((instr.whole >> 15) == 0xea3f) return DECODED_INSTR(XVPICKEV_D);
 				// XVPICKEV.W: LASX vector pick even word - bits[31:15] = 0xea3e
 				// Opcode: 0x751f0000 >> 15 = 0xea3e
 				if ((instr.whole >> 15) == 0xea3e) return DECODED_INSTR(XVPICKEV_W);
-				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xee0f
-				// Opcode: 0x77078000 >> 15 = 0xee0f
-				if ((instr.whole >> 15) == 0xee0f) return DECODED_INSTR(XVPICKOD_D);
-				// XVLDI: LASX load immediate - bits[31:23] = 0xEF
-				// Opcode: 0x77e00000 >> 23 = 0xEF (format: XdSj13 with 13-bit immediate)
-				// Note: Checked last as catch-all for 0x77exxxxx / 0x77fxxxxx after specific instructions
-				if ((instr.whole >> 23) == 0xEF) {
+				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xea43
+				// Opcode: 0x75218000 >> 15 = 0xea43
+				if ((instr.whole >> 15) == 0xea43) return DECODED_INSTR(XVPICKOD_D);
+				// XVLDI: LASX load immediate - bits[31:18] = 0x1DF8
+				// Opcode: 0x77e00000 >> 18 = 0x1DF8 (format: XdSj13 with 13-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF8) {
 					return DECODED_INSTR(XVLDI);
 				}
 			}
-- 
2.43.0


From 5ea0adab05cf13ab825ab950d8e9b099a57a5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 71/87] fix: VHADDW and XVHADDW add odd elements of vj to even
 elements of vk

They added pairs within one register, the LASX forms ignoring vk.
---
 lib/libloong/bytecode_impl.cpp |  6 +++---
 lib/libloong/la_instr_impl.hpp | 36 +++++++++++++++-------------------
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index caf9a09..af869f3 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -628,9 +628,9 @@ INSTRUCTION(LA64_BC_VHADDW_D_W, la64_vhaddw_d_w)
 	const auto& src1 = REGISTERS().getvr(fi.rj);
 	const auto& src2 = REGISTERS().getvr(fi.rk);
 
-	// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-	const int64_t res1 = (int64_t)(int32_t)src1.w[0] + (int64_t)(int32_t)src1.w[1];
-	const int64_t res2 = (int64_t)(int32_t)src2.w[0] + (int64_t)(int32_t)src2.w[1];
+	// Add the odd words of vj and the even words of vk: vj[1]+vk[0], vj[3]+vk[2]
+	const int64_t res1 = (int64_t)(int32_t)src1.w[1] + (int64_t)(int32_t)src2.w[0];
+	const int64_t res2 = (int64_t)(int32_t)src1.w[3] + (int64_t)(int32_t)src2.w[2];
 	dst.d[0] = res1;
 	dst.d[1] = res2;
 	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 8ae4231..f3e4579 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2111,14 +2111,14 @@ struct InstrImpl {
 
 	static void VHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// VHADDW.D.W: Vector horizontal add with widening (word to doubleword)
-		// Adds adjacent pairs of 32-bit signed words and produces 64-bit results
+		// Adds the odd words of vj and the even words of vk, giving 64-bit results
 		const auto& src1 = cpu.registers().getvr(instr.r3.rj);
 		const auto& src2 = cpu.registers().getvr(instr.r3.rk);
 		auto& dst = cpu.registers().getvr(instr.r3.rd);
 
-		// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-		const int64_t res1 = (int64_t)src1.w[0] + (int64_t)src1.w[1];
-		const int64_t res2 = (int64_t)src2.w[0] + (int64_t)src2.w[1];
+		// vj[1]+vk[0], vj[3]+vk[2]
+		const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+		const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 		dst.d[0] = res1;
 		dst.d[1] = res2;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
@@ -2128,22 +2128,19 @@ struct InstrImpl {
 
 	static void XVHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.D.W: LASX vector horizontal add with widening (word to doubleword, 256-bit)
-		// Adds adjacent pairs of 32-bit signed words from xj and produces 64-bit results
-		// Takes all 8 words from xj, produces 4 doublewords
+		// Adds the odd words of xj and the even words of xk, giving 64-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src_j = cpu.registers().getvr(xj);
-		//const auto& src_k = cpu.registers().getvr(xk);
+		const auto& src_k = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 8 words from xj: pairs (0,1), (2,3), (4,5), (6,7) → 4 doublewords
-		// xk is unused (or maybe used for other operand in 3-register form)
-		int64_t r0 = (int64_t)src_j.w[0] + (int64_t)src_j.w[1];
-		int64_t r1 = (int64_t)src_j.w[2] + (int64_t)src_j.w[3];
-		int64_t r2 = (int64_t)src_j.w[4] + (int64_t)src_j.w[5];
-		int64_t r3 = (int64_t)src_j.w[6] + (int64_t)src_j.w[7];
+		int64_t r0 = (int64_t)src_j.w[1] + (int64_t)src_k.w[0];
+		int64_t r1 = (int64_t)src_j.w[3] + (int64_t)src_k.w[2];
+		int64_t r2 = (int64_t)src_j.w[5] + (int64_t)src_k.w[4];
+		int64_t r3 = (int64_t)src_j.w[7] + (int64_t)src_k.w[6];
 
 		auto& dst = cpu.registers().getvr(xd);
 		dst.d[0] = r0;
@@ -2286,18 +2283,17 @@ struct InstrImpl {
 
 	static void XVHADDW_Q_D(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.Q.D: LASX vector horizontal add with widening (doubleword to quadword, 256-bit)
-		// Adds adjacent pairs of 64-bit signed doublewords and produces 128-bit results
+		// Adds the odd doublewords of xj and the even doublewords of xk, giving 128-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src1 = cpu.registers().getvr(xj);
-		//const auto& src2 = cpu.registers().getvr(xk);
+		const auto& src2 = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 4 doublewords from xj: pairs (0,1), (2,3) → 2 quadwords
-		__int128 q0 = (__int128)src1.d[0] + (__int128)src1.d[1];
-		__int128 q1 = (__int128)src1.d[2] + (__int128)src1.d[3];
+		__int128 q0 = (__int128)src1.d[1] + (__int128)src2.d[0];
+		__int128 q1 = (__int128)src1.d[3] + (__int128)src2.d[2];
 
 		// Store quadwords as pairs of doublewords
 		auto& dst = cpu.registers().getvr(xd);
-- 
2.43.0


From 27dff7b431487a7e383f395dd804db6389ef48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 72/87] fix: LASX interleave, pick and pack work within 128-bit
 parts and allow vd = vj or vk

They mixed the two parts, took the sources in the wrong order and read
elements the same instruction had already overwritten.
---
 lib/libloong/la_instr_impl.hpp | 134 +++++++++++++++------------------
 1 file changed, 62 insertions(+), 72 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f3e4579..a4969ce 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2483,25 +2483,23 @@ struct InstrImpl {
 
 	static void VPICKEV_W(cpu_t& cpu, la_instruction instr) {
 		// VPICKEV.W: Vector Pick Even Word
-		// Picks even-indexed 32-bit words from two vectors
+		// Picks the even words of vk and then of vj
 		uint32_t vd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t vk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(vj);
-		const auto& src_k = cpu.registers().getvr(vk);
+		// The destination may be one of the sources
+		const auto src_j = cpu.registers().getvr(vj);
+		const auto src_k = cpu.registers().getvr(vk);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// Pick even words: dst = [vk[0], vk[2], vj[0], vj[2]]
 		dst.wu[0] = src_k.wu[0];
 		dst.wu[1] = src_k.wu[2];
 		dst.wu[2] = src_j.wu[0];
 		dst.wu[3] = src_j.wu[2];
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
-		dst.wu[4] = 0;
-		dst.wu[5] = 0;
-		dst.wu[6] = 0;
-		dst.wu[7] = 0;
+		dst.du[2] = 0;
+		dst.du[3] = 0;
 	}
 
 	static void VNOR_V(cpu_t& cpu, la_instruction instr) {
@@ -4089,38 +4087,36 @@ struct InstrImpl {
 
 	static void XVILVL_D(cpu_t& cpu, la_instruction instr) {
 		// XVILVL.D: LASX vector interleave low double-word (256-bit)
-		// Interleaves the low 128-bit double-words from two 256-bit vectors
+		// Interleaves the low double-words of each 128-bit part
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// The destination may be one of the sources
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[0], dst[1] = src_j[0], dst[2] = src_k[1], dst[3] = src_j[1]
-		// For LASX (256-bit), we interleave the low 2 double-words (128-bit) from each source
 		dst.du[0] = src_k.du[0];
 		dst.du[1] = src_j.du[0];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_j.du[1];
+		dst.du[2] = src_k.du[2];
+		dst.du[3] = src_j.du[2];
 	}
 
 	static void XVILVH_D(cpu_t& cpu, la_instruction instr) {
 		// XVILVH.D: LASX vector interleave high double-word (256-bit)
-		// Interleaves the high 128-bit double-words from two 256-bit vectors
+		// Interleaves the high double-words of each 128-bit part
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// The destination may be one of the sources
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[2], dst[1] = src_j[2], dst[2] = src_k[3], dst[3] = src_j[3]
-		// For LASX (256-bit), we interleave the high 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[2];
-		dst.du[1] = src_j.du[2];
+		dst.du[0] = src_k.du[1];
+		dst.du[1] = src_j.du[1];
 		dst.du[2] = src_k.du[3];
 		dst.du[3] = src_j.du[3];
 	}
@@ -4154,102 +4150,96 @@ struct InstrImpl {
 
 	static void XVPACKEV_D(cpu_t& cpu, la_instruction instr) {
 		// XVPACKEV.D: LASX vector pack even double-word (256-bit)
-		// Packs even-numbered elements (0, 2) from each source
-		// dst[0] = xj[0], dst[1] = xk[0], dst[2] = xj[2], dst[3] = xk[2]
+		// Packs the even double-words of xk and xj
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// The destination may be one of the sources
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_k.du[0];
-		dst.du[2] = src_j.du[2];
-		dst.du[3] = src_k.du[2];
+		dst.du[0] = src_k.du[0];
+		dst.du[1] = src_j.du[0];
+		dst.du[2] = src_k.du[2];
+		dst.du[3] = src_j.du[2];
 	}
 
 	static void XVPACKOD_D(cpu_t& cpu, la_instruction instr) {
 		// XVPACKOD.D: LASX vector pack odd double-word (256-bit)
-		// Packs odd-numbered elements (1, 3) from each source
-		// dst[0] = xj[1], dst[1] = xk[1], dst[2] = xj[3], dst[3] = xk[3]
+		// Packs the odd double-words of xk and xj
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// The destination may be one of the sources
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_k.du[1];
-		dst.du[2] = src_j.du[3];
-		dst.du[3] = src_k.du[3];
+		dst.du[0] = src_k.du[1];
+		dst.du[1] = src_j.du[1];
+		dst.du[2] = src_k.du[3];
+		dst.du[3] = src_j.du[3];
 	}
 
 	static void XVPICKEV_D(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.D: LASX vector pick even double-word (256-bit)
-		// Picks even elements from both sources in a different pattern than PACKEV
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xk[0], dst[3] = xk[2]
+		// Picks the even double-words of xk and then of xj in each 128-bit part
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// The destination may be one of the sources
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[0];
-		dst.du[3] = src_k.du[2];
+		dst.du[0] = src_k.du[0];
+		dst.du[1] = src_j.du[0];
+		dst.du[2] = src_k.du[2];
+		dst.du[3] = src_j.du[2];
 	}
 
 	static void XVPICKEV_W(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.W: LASX vector pick even word (256-bit)
-		// Picks even-indexed words from both sources
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xj[4], dst[3] = xj[6]
-		// dst[4] = xk[0], dst[5] = xk[2], dst[6] = xk[4], dst[7] = xk[6]
+		// Picks the even words of xk and then of xj in each 128-bit part
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// The destination may be one of the sources
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even words (indices 0, 2, 4, 6) from both sources
-		dst.w[0] = src_j.w[0];
-		dst.w[1] = src_j.w[2];
-		dst.w[2] = src_j.w[4];
-		dst.w[3] = src_j.w[6];
-		dst.w[4] = src_k.w[0];
-		dst.w[5] = src_k.w[2];
-		dst.w[6] = src_k.w[4];
-		dst.w[7] = src_k.w[6];
+		dst.w[0] = src_k.w[0];
+		dst.w[1] = src_k.w[2];
+		dst.w[2] = src_j.w[0];
+		dst.w[3] = src_j.w[2];
+		dst.w[4] = src_k.w[4];
+		dst.w[5] = src_k.w[6];
+		dst.w[6] = src_j.w[4];
+		dst.w[7] = src_j.w[6];
 	}
 
 	static void XVPICKOD_D(cpu_t& cpu, la_instruction instr) {
 		// XVPICKOD.D: LASX vector pick odd double-word (256-bit)
-		// Picks odd elements from both sources
-		// dst[0] = xj[1], dst[1] = xj[3], dst[2] = xk[1], dst[3] = xk[3]
+		// Picks the odd double-words of xk and then of xj in each 128-bit part
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// The destination may be one of the sources
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_j.du[3];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_k.du[3];
+		dst.du[0] = src_k.du[1];
+		dst.du[1] = src_j.du[1];
+		dst.du[2] = src_k.du[3];
+		dst.du[3] = src_j.du[3];
 	}
 
 	static void XVLDI(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 8f5b9ed8533a0e6f82ae8f802f6ce2eb612ef568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 73/87] fix: XVREPLVE.D takes its index from rk and replicates
 within 128-bit parts

The vector and the index register were swapped.
---
 lib/libloong/la_instr_impl.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index a4969ce..53a79c0 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3881,24 +3881,23 @@ struct InstrImpl {
 
 	static void XVREPLVE_D(cpu_t& cpu, la_instruction instr) {
 		// XVREPLVE.D: LASX vector replicate element from register (double precision)
-		// Replicates element selected by rj to all elements in xd from vector xk
-		// Format: xd[i] = xk[rj % 4] for all i
+		// Replicates the element of xj selected by rk, in each 128-bit part
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t rk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src = cpu.registers().getvr(xk);
+		const auto& src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Get the element index from register rj (modulo 4 for double elements)
-		uint32_t idx = cpu.reg(xj) & 0x3;
+		// The element index is modulo 2, the number of double elements in a 128-bit part
+		const uint32_t idx = cpu.reg(rk) & 0x1;
+		const uint64_t low = src.du[idx];
+		const uint64_t high = src.du[2 + idx];
 
-		// Replicate the selected element to all 4 positions
-		uint64_t value = src.du[idx];
-		dst.du[0] = value;
-		dst.du[1] = value;
-		dst.du[2] = value;
-		dst.du[3] = value;
+		dst.du[0] = low;
+		dst.du[1] = low;
+		dst.du[2] = high;
+		dst.du[3] = high;
 	}
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 973722c1d6bf17c7e5b55b6d69fcbca4f28d2eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 74/87] fix: VFRSTPI.B and XVMSKNZ.B give what the ISA defines

VFRSTPI.B looked for a non-zero byte from its immediate on and overwrote
the whole register; XVMSKNZ.B put both masks in the low part.
---
 lib/libloong/la_instr_impl.hpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 53a79c0..519b563 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3042,8 +3042,8 @@ struct InstrImpl {
 
 	static void VFRSTPI_B(cpu_t& cpu, la_instruction instr) {
 		// VFRSTPI.B vd, vj, ui5
-		// Find first set position in vector (starting from ui5)
-		// Sets vd[0] to the position of first non-zero byte starting from position ui5
+		// Find the first negative byte of vj and write its index (16 if there is none)
+		// to byte ui5 % 16 of vd
 		uint32_t vd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t ui5 = (instr.whole >> 10) & 0x1F;
@@ -3051,19 +3051,13 @@ struct InstrImpl {
 		const auto& src = cpu.registers().getvr(vj);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// Find first non-zero byte starting from ui5
-		uint8_t pos = 16; // Default: not found
-		for (int i = ui5; i < 16; i++) {
-			uint8_t byte = src.bu[i];
-			if (byte != 0) {
-				pos = i;
-				break;
-			}
-		}
+		uint8_t pos = 0;
+		while (pos < 16 && (src.bu[pos] & 0x80) == 0) pos++;
 
-		// Store result in first byte of vd, clear rest
-		dst.du[0] = pos;
-		dst.du[1] = 0;
+		dst.bu[ui5 & 0xF] = pos;
+		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
+		dst.du[2] = 0;
+		dst.du[3] = 0;
 	}
 
 	static void BCNEZ(cpu_t& cpu, la_instruction instr) {
@@ -3639,7 +3633,7 @@ struct InstrImpl {
 
 	static void XVMSKNZ_B(cpu_t& cpu, la_instruction instr) {
 		// XVMSKNZ.B xd, xj
-		// Create a 32-bit mask where each bit indicates if corresponding byte is non-zero
+		// Create a 16-bit mask for each 128-bit part where each bit indicates if the corresponding byte is non-zero
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 
@@ -3656,9 +3650,9 @@ struct InstrImpl {
 			}
 		}
 
-		dst.du[0] = mask;
+		dst.du[0] = mask & 0xFFFF;
 		dst.du[1] = 0;
-		dst.du[2] = 0;
+		dst.du[2] = mask >> 16;
 		dst.du[3] = 0;
 	}
 
-- 
2.43.0


From 810dd3d53ca74df46c2a775bd1527b3380f94f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 75/87] fix: VFCMP and XVFCMP implement every condition

XVFCMP gave false for the conditions it did not know.
---
 lib/libloong/la64.cpp          |  12 +--
 lib/libloong/la_instr_impl.hpp | 147 +++++++++------------------------
 2 files changed, 43 insertions(+), 116 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 759d991..a9c9269 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -740,17 +740,17 @@ namespace loongarch
 				return is_double ? DECODED_INSTR(FCMP_COND_D) : DECODED_INSTR(FCMP_COND_S);
 			}
 		}
-		// VFCMP instructions: bits[31:21] = 0x063, bits[20:15] = condition code
+		// VFCMP instructions: bits[31:20] = 0x0C6, bits[19:15] = condition code
 		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x063) {
+			uint32_t op12 = (instr.whole >> 20) & 0xFFF;
+			if (op12 == 0x0C6) {
 				return DECODED_INSTR(VFCMP_COND_D);
 			}
 		}
-		// XVFCMP instructions: bits[31:21] = 0x065, bits[20:15] = condition code (LASX)
+		// XVFCMP instructions: bits[31:20] = 0x0CA, bits[19:15] = condition code (LASX)
 		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x065) {
+			uint32_t op12 = (instr.whole >> 20) & 0xFFF;
+			if (op12 == 0x0CA) {
 				return DECODED_INSTR(XVFCMP_COND_D);
 			}
 		}
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 519b563..7c51457 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -22,6 +22,35 @@ struct InstrImpl {
 		return static_cast<Integer>(value);
 	}
 
+	// The conditions of FCMP.cond, VFCMP.cond and XVFCMP.cond. The lowest bit makes it signaling.
+	static bool is_fcmp_condition(uint32_t cond) {
+		switch (cond & ~1u) {
+			case 0x00: case 0x02: case 0x04: case 0x06: case 0x08: case 0x0A:
+			case 0x0C: case 0x0E: case 0x10: case 0x14: case 0x18:
+				return true;
+			default:
+				return false;
+		}
+	}
+	template <typename Float>
+	static bool fcmp_holds(uint32_t cond, Float a, Float b) {
+		const bool less = a < b, equal = a == b;
+		const bool unordered = std::isnan(a) || std::isnan(b);
+		switch (cond & ~1u) {
+			case 0x02: return less;               // CLT
+			case 0x04: return equal;              // CEQ
+			case 0x06: return less || equal;      // CLE
+			case 0x08: return unordered;          // CUN
+			case 0x0A: return unordered || less;  // CULT
+			case 0x0C: return unordered || equal; // CUEQ
+			case 0x0E: return unordered || less || equal; // CULE
+			case 0x10: return !unordered && !equal; // CNE
+			case 0x14: return !unordered;         // COR
+			case 0x18: return unordered || !equal; // CUNE
+			default:   return false;              // CAF
+		}
+	}
+
 	// === Arithmetic Instructions ===
 
 	static void ADD_W(cpu_t& cpu, la_instruction instr) {
@@ -1059,62 +1088,11 @@ struct InstrImpl {
 		const auto& src2 = cpu.registers().getvr(vk);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// For each double element: if src1[i] < src2[i] is TRUE, set to all 1s; if FALSE, set to 0
+		if (!is_fcmp_condition(cond))
+			throw MachineException(ILLEGAL_OPCODE,
+				"VFCMP.COND.D: Unsupported condition code", instr.whole);
 		for (int i = 0; i < 2; i++) {
-			double val1 = src1.df[i];
-			double val2 = src2.df[i];
-			switch (cond) {
-				case 0x02: // CLT - (Quiet) Less Than (ordered)
-				case 0x03: // SLT - Signaling Less Than (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x04: // CEQ - Equal (ordered)
-				case 0x05: // SEQ - Signaling Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-				case 0x07: // SLE - Signaling Less or Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-				case 0x0F: // SULE - Signaling Unordered or Less or Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x14: // COR - (Quiet) Ordered
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = UINT64_MAX;
-					}
-					break;
-				case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-				case 0x19: // SUNE - Signaling Unordered or Not Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
-					}
-					break;
-				default:
-					throw MachineException(ILLEGAL_OPCODE,
-						"VFCMP.COND.D: Unsupported condition code", instr.whole);
-			}
+			dst.du[i] = fcmp_holds(cond, src1.df[i], src2.df[i]) ? UINT64_MAX : 0;
 		}
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
@@ -2222,62 +2200,11 @@ struct InstrImpl {
 		const auto& src2 = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// For each of 4 double elements
+		if (!is_fcmp_condition(cond))
+			throw MachineException(ILLEGAL_OPCODE,
+				"XVFCMP.COND.D: Unsupported condition code", instr.whole);
 		for (int i = 0; i < 4; i++) {
-			double val1 = src1.df[i];
-			double val2 = src2.df[i];
-			switch (cond) {
-				case 0x02: // CLT - (Quiet) Less Than (ordered)
-				case 0x03: // SLT - Signaling Less Than (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x04: // CEQ - Equal (ordered)
-				case 0x05: // SEQ - Signaling Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-				case 0x07: // SLE - Signaling Less or Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-				case 0x0F: // SULE - Signaling Unordered or Less or Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x14: // COR - (Quiet) Ordered
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = UINT64_MAX;
-					}
-					break;
-				case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-				case 0x19: // SUNE - Signaling Unordered or Not Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
-					}
-					break;
-				default:
-					dst.du[i] = 0;
-					break;
-			}
+			dst.du[i] = fcmp_holds(cond, src1.df[i], src2.df[i]) ? UINT64_MAX : 0;
 		}
 	}
 
-- 
2.43.0


From 906d08f647f2e01481e1b67f7d9abd69d28fbe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:11 +0000
Subject: [PATCH 76/87] fix: jumps to misaligned or foreign addresses under
 tail-call dispatch are reported at their target

---
 lib/libloong/tailcall_dispatch.cpp            | 15 +++++++++++++++
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index cb7f237..108629b 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -69,6 +69,7 @@ namespace loongarch {
 	d = exec->pc_relative_decoder_cache(pc); \
 	OVERFLOW_CHECK(); \
 	QUICK_EXEC_CHECK() \
+	ALIGNMENT_CHECK() \
 	BEGIN_BLOCK() \
 	EXECUTE_CURRENT()
 
@@ -78,12 +79,17 @@ namespace loongarch {
 	BEGIN_BLOCK() \
 	EXECUTE_CURRENT()
 
+#define ALIGNMENT_CHECK() \
+	if (LA_UNLIKELY(pc & 0x3)) \
+		misaligned_jump(cpu, pc);
+
 #define QUICK_EXEC_CHECK() \
 	if (LA_UNLIKELY(!(pc >= exec->exec_begin() && pc < exec->exec_end()))) \
 		MUSTTAIL return next_execute_segment(d, exec, cpu, pc, counter);
 
 #define UNCHECKED_JUMP() \
 	QUICK_EXEC_CHECK() \
+	ALIGNMENT_CHECK() \
 	d = exec->pc_relative_decoder_cache(pc); \
 	BEGIN_BLOCK() \
 	EXECUTE_CURRENT()
@@ -108,8 +114,16 @@ namespace loongarch {
 
 namespace loongarch
 {
+	[[noreturn]] static void misaligned_jump(CPU& cpu, address_t pc)
+	{
+		cpu.registers().pc = pc;
+		cpu.trigger_exception(MISALIGNED_INSTRUCTION, pc);
+		__builtin_unreachable();
+	}
+
 	static inline DecodedExecuteSegment* resolve_execute_segment(CPU& cpu, address_t& pc)
 	{
+		cpu.registers().pc = pc;
 		auto results = cpu.next_execute_segment(pc);
 		pc = results.pc;
 		return results.exec;
@@ -185,6 +199,7 @@ namespace loongarch
 	{
 		// Helper function to change execute segment
 		exec = resolve_execute_segment(cpu, pc);
+		ALIGNMENT_CHECK();
 		d = exec->pc_relative_decoder_cache(pc);
 		BEGIN_BLOCK();
 		EXECUTE_CURRENT();
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 281f8db..31f91d2 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -65,6 +65,7 @@ namespace loongarch {
 	pc += (offset); \
 	d = exec->pc_relative_decoder_cache(pc); \
 	QUICK_EXEC_CHECK() \
+	ALIGNMENT_CHECK() \
 	BEGIN_BLOCK() \
 	EXECUTE_CURRENT()
 
@@ -74,12 +75,17 @@ namespace loongarch {
 	BEGIN_BLOCK() \
 	EXECUTE_CURRENT()
 
+#define ALIGNMENT_CHECK() \
+	if (LA_UNLIKELY(pc & 0x3)) \
+		misaligned_jump(cpu, pc);
+
 #define QUICK_EXEC_CHECK() \
 	if (LA_UNLIKELY(!(pc >= exec->exec_begin() && pc < exec->exec_end()))) \
 		MUSTTAIL return next_execute_segment(d, exec, cpu, pc);
 
 #define UNCHECKED_JUMP() \
 	QUICK_EXEC_CHECK() \
+	ALIGNMENT_CHECK() \
 	d = exec->pc_relative_decoder_cache(pc); \
 	BEGIN_BLOCK() \
 	EXECUTE_CURRENT()
@@ -95,8 +101,16 @@ namespace loongarch {
 
 namespace loongarch
 {
+	[[noreturn]] static void misaligned_jump(CPU& cpu, address_t pc)
+	{
+		cpu.registers().pc = pc;
+		cpu.trigger_exception(MISALIGNED_INSTRUCTION, pc);
+		__builtin_unreachable();
+	}
+
 	static inline DecodedExecuteSegment* resolve_execute_segment(CPU& cpu, address_t& pc)
 	{
+		cpu.registers().pc = pc;
 		auto results = cpu.next_execute_segment(pc);
 		pc = results.pc;
 		return results.exec;
@@ -163,6 +177,7 @@ namespace loongarch
 	{
 		// Helper function to change execute segment
 		exec = resolve_execute_segment(cpu, pc);
+		ALIGNMENT_CHECK();
 		d = exec->pc_relative_decoder_cache(pc);
 		BEGIN_BLOCK();
 		EXECUTE_CURRENT();
-- 
2.43.0


From 572d5618625785dcabfbabc86ae9accc4c722442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:11 +0000
Subject: [PATCH 77/87] fix: system calls under tail-call dispatch can stop,
 move the pc and do not end a block

---
 lib/libloong/tailcall_dispatch.cpp            |  8 ++++----
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 108629b..92b21ea 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -154,13 +154,13 @@ namespace loongarch
 		cpu.machine().system_call(cpu.reg(REG_A7));
 		// Restore counters
 		counter.retrieve_counters(MACHINE());
-		// System calls can change PC
-		if (LA_UNLIKELY(pc != cpu.registers().pc))
+		// System calls can change PC, leaving it one instruction before the next
+		if (LA_UNLIKELY(counter.max() == 0 || pc != cpu.registers().pc))
 		{
-			pc = cpu.registers().pc;
+			pc = cpu.registers().pc + 4;
 			OVERFLOW_CHECKED_JUMP();
 		}
-		NEXT_BLOCK(4);
+		NEXT_BLOCK_UNCHECKED(4);
 	}
 
 	INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 31f91d2..491d93f 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -136,12 +136,12 @@ namespace loongarch
 		cpu.registers().pc = pc;
 		// Invoke system call
 		cpu.machine().system_call(cpu.reg(REG_A7));
-		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0))
-			return RETURN_VALUES();
-		// System calls can change PC
-		if (LA_UNLIKELY(pc != cpu.registers().pc))
+		// System calls can stop or change PC, leaving it one instruction before the next
+		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0 || pc != cpu.registers().pc))
 		{
-			pc = cpu.registers().pc;
+			pc = cpu.registers().pc + 4;
+			if (cpu.machine().max_instructions() == 0)
+				return RETURN_VALUES();
 			UNCHECKED_JUMP();
 		}
 		NEXT_BLOCK_UNCHECKED(4);
-- 
2.43.0


From 2793eb2d24882c1edb99808e68bce836982b3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:31 +0000
Subject: [PATCH 78/87] fix: a misaligned pc is reported when execution starts
 under tail-call dispatch

---
 lib/libloong/tailcall_dispatch.cpp            | 3 ++-
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 92b21ea..d21cd38 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -235,8 +235,9 @@ namespace loongarch
 			pc = results.pc;
 		}
 
-		auto* d = exec->pc_relative_decoder_cache(pc);
 		auto& cpu = *this;
+		ALIGNMENT_CHECK();
+		auto* d = exec->pc_relative_decoder_cache(pc);
 
 		BEGIN_BLOCK();
 
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 491d93f..5be8f88 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -213,8 +213,9 @@ namespace loongarch
 			pc = results.pc;
 		}
 
-		auto* d = exec->pc_relative_decoder_cache(pc);
 		auto& cpu = *this;
+		ALIGNMENT_CHECK();
+		auto* d = exec->pc_relative_decoder_cache(pc);
 
 		BEGIN_BLOCK();
 
-- 
2.43.0


From 98ee8a160626bd49b836062371bb49ef98ed3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 79/87] fix: floating-point registers are printed under their
 names

---
 lib/libloong/la_instr_printers.hpp | 106 ++++++++++++++---------------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index 847be9c..a9fe3c6 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -490,23 +490,23 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	}
 
 	static int FLDX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fldx.d $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fldx.d %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FLDX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fldx.s $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fldx.s %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FSTX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fstx.d $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fstx.d %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FSTX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fstx.s $fa%u, %s, %s",
-			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
+		return snprintf(buf, len, "fstx.s %s, %s, %s",
+			flreg_name(instr.r3.rd), reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int VLDX(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
@@ -1008,25 +1008,25 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	static int MOVFR2GR_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2gr.s %s, $fa%u", reg_name(rd), fj);
+		return snprintf(buf, len, "movfr2gr.s %s, %s", reg_name(rd), flreg_name(fj));
 	}
 
 	static int MOVFR2GR_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2gr.d %s, $fa%u", reg_name(rd), fj);
+		return snprintf(buf, len, "movfr2gr.d %s, %s", reg_name(rd), flreg_name(fj));
 	}
 
 	static int MOVGR2FR_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t rj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movgr2fr.w $fa%u, %s", fd, reg_name(rj));
+		return snprintf(buf, len, "movgr2fr.w %s, %s", flreg_name(fd), reg_name(rj));
 	}
 
 	static int MOVGR2FR_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t rj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movgr2fr.d $fa%u, %s", fd, reg_name(rj));
+		return snprintf(buf, len, "movgr2fr.d %s, %s", flreg_name(fd), reg_name(rj));
 	}
 
 	static int MOVFCSR2GR(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1038,13 +1038,13 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	static int MOVFR2CF(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t cd = instr.whole & 0x7;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2cf $fcc%u, $fa%u", cd, fj);
+		return snprintf(buf, len, "movfr2cf $fcc%u, %s", cd, flreg_name(fj));
 	}
 
 	static int MOVCF2FR(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		return snprintf(buf, len, "movcf2fr $fa%u, $fcc%u", fd, cj);
+		return snprintf(buf, len, "movcf2fr %s, $fcc%u", flreg_name(fd), cj);
 	}
 
 	static int MOVGR2CF(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1074,7 +1074,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		const uint32_t cond = (instr.whole >> 15) & 0x1F;
 		const char* mnemonic = cond_names(cond);
-		return snprintf(buf, len, "fcmp.%s.s $fcc%u, $fa%u, $fa%u", mnemonic, cd, fj, fk);
+		return snprintf(buf, len, "fcmp.%s.s $fcc%u, %s, %s", mnemonic, cd, flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FCMP_COND_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1083,7 +1083,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		const uint32_t cond = (instr.whole >> 15) & 0x1F;
 		const char* mnemonic = cond_names(cond);
-		return snprintf(buf, len, "fcmp.%s.d $fcc%u, $fa%u, $fa%u", mnemonic, cd, fj, fk);
+		return snprintf(buf, len, "fcmp.%s.d $fcc%u, %s, %s", mnemonic, cd, flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSEL(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1091,37 +1091,37 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		uint32_t ca = (instr.whole >> 15) & 0x7;
-		return snprintf(buf, len, "fsel $fa%u, $fa%u, $fa%u, $fcc%u", fd, fj, fk, ca);
+		return snprintf(buf, len, "fsel %s, %s, %s, $fcc%u", flreg_name(fd), flreg_name(fj), flreg_name(fk), ca);
 	}
 
 	static int FABS_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fabs.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fabs.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FABS_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fabs.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fabs.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FNEG_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fneg.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fneg.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FMOV_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fmov.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fmov.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FMOV_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fmov.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fmov.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCLASS(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1130,151 +1130,151 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
 		// Extract size from opcode: bit[10] (0=d, 1=s)
 		uint32_t size_idx = (instr.whole >> 10) & 0x1;
-		return snprintf(buf, len, "fclass.%c $fa%u, $fa%u", sizes[size_idx], fd, fj);
+		return snprintf(buf, len, "fclass.%c %s, %s", sizes[size_idx], flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_D_L(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.d.l $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.d.l %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_D_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.d.w $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.d.w %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_S_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.s.w $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.s.w %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FFINT_S_L(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.s.l $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.s.l %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCVT_S_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fcvt.s.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fcvt.s.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FCVT_D_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fcvt.d.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fcvt.d.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_W_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.w.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.w.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_W_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.w.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.w.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_L_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.l.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.l.s %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FTINTRZ_L_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.l.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.l.d %s, %s", flreg_name(fd), flreg_name(fj));
 	}
 
 	static int FADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fadd.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fadd.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fadd.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fadd.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMUL_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmul.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmul.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMUL_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmul.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmul.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fsub.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fsub.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fsub.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fsub.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FDIV_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fdiv.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fdiv.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FDIV_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fdiv.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fdiv.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMAX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmax.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmax.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMIN_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmin.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmin.s %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMAX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmax.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmax.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMIN_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmin.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmin.d %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk));
 	}
 
 	static int FMSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1282,7 +1282,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmsub.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmsub.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1290,7 +1290,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmadd.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmadd.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1298,7 +1298,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmadd.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmadd.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FMSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1306,7 +1306,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmsub.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmsub.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1314,7 +1314,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmadd.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmadd.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1322,7 +1322,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmadd.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmadd.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1330,7 +1330,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmsub.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmsub.s %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int FNMSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1338,7 +1338,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmsub.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmsub.d %s, %s, %s, %s", flreg_name(fd), flreg_name(fj), flreg_name(fk), flreg_name(fa));
 	}
 
 	static int VFRSTPI_B(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
-- 
2.43.0


From ca58d0889aaf1d9825983171fdeb52f5eaf9cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 80/87] fix: the texts of XVREPLVE.D, VPICKVE2GR and PCADDU18I
 name the right operands

---
 lib/libloong/la_instr_printers.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index a9fe3c6..da57baa 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -664,7 +664,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 
 	static int PCADDU18I(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t pc) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = (int64_t)si20 << 18;
 		addr_t target = pc + offset;
 		return snprintf(buf, len, "pcaddu18i %s, %d # 0x%lx",
 			reg_name(instr.ri20.rd), si20, (unsigned long)target);
@@ -1374,17 +1374,22 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t top16 = (instr.whole >> 16) & 0xFFFF;
-		uint32_t subop = (instr.whole >> 12) & 0xF;
+		// The index is as wide as the element size leaves room for
+		uint32_t subop = (instr.whole >> 10) & 0x3F;
 
 		// Determine size suffix and immediate width
 		const char* size_suffix;
 		uint32_t imm_mask;
-		switch (subop) {
-			case 0x8: size_suffix = (top16 == 0x72EF) ? ".b" : ".bu"; imm_mask = 0xF; break;
-			case 0xC: size_suffix = (top16 == 0x72EF) ? ".h" : ".hu"; imm_mask = 0x7; break;
-			case 0xE: size_suffix = (top16 == 0x72EF) ? ".w" : ".wu"; imm_mask = 0x3; break;
-			case 0xF: size_suffix = (top16 == 0x72EF) ? ".d" : ".du"; imm_mask = 0x1; break;
-			default: size_suffix = ".?"; imm_mask = 0xF; break;
+		if ((subop & 0x30) == 0x20) {
+			size_suffix = (top16 == 0x72EF) ? ".b" : ".bu"; imm_mask = 0xF;
+		} else if ((subop & 0x38) == 0x30) {
+			size_suffix = (top16 == 0x72EF) ? ".h" : ".hu"; imm_mask = 0x7;
+		} else if ((subop & 0x3C) == 0x38) {
+			size_suffix = (top16 == 0x72EF) ? ".w" : ".wu"; imm_mask = 0x3;
+		} else if ((subop & 0x3E) == 0x3C) {
+			size_suffix = (top16 == 0x72EF) ? ".d" : ".du"; imm_mask = 0x1;
+		} else {
+			size_suffix = ".?"; imm_mask = 0xF;
 		}
 
 		uint32_t imm = (instr.whole >> 10) & imm_mask;
@@ -1898,7 +1903,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
-		return snprintf(buf, len, "xvreplve.d $xr%u, $xr%u, $r%u", xd, xk, xj);
+		return snprintf(buf, len, "xvreplve.d $xr%u, $xr%u, %s", xd, xj, reg_name(xk));
 	}
 
 	static int XVFMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
-- 
2.43.0


From e57f71421ebabc45cbf3bc84c96570f38e2e6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 81/87] fix: the debugger's instruction budget does not include
 what ran before

---
 lib/libloong/debug.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index cf38004..7c2bfb5 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -8,6 +8,7 @@ namespace loongarch
 {
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
+		this->machine.set_instruction_counter(0);
 		this->machine.set_max_instructions(max_instructions);
 		while (!this->machine.stopped() && !this->machine.instruction_limit_reached()) {
 			if (this->verbose_instructions)
-- 
2.43.0


From 78339e432f3b0af036d33164482b570a0e922012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:01 +0000
Subject: [PATCH 82/87] fix: only mangled symbol names are demangled

---
 lib/libloong/debug.cpp             | 3 +++
 lib/libloong/machine_backtrace.cpp | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 7c2bfb5..ff17114 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -254,6 +254,9 @@ namespace loongarch
 
 	std::string DebugMachine::demangle(const char* mangled)
 	{
+		// Other names would be taken for encoded types ("f" for float)
+		if (mangled[0] != '_' || mangled[1] != 'Z')
+			return std::string(mangled);
 		int status;
 		std::unique_ptr<char, void(*)(void*)> demangled(
 			abi::__cxa_demangle(mangled, nullptr, nullptr, &status),
diff --git a/lib/libloong/machine_backtrace.cpp b/lib/libloong/machine_backtrace.cpp
index 2225c12..2bd84da 100644
--- a/lib/libloong/machine_backtrace.cpp
+++ b/lib/libloong/machine_backtrace.cpp
@@ -15,8 +15,12 @@ std::string Machine::lookup_demangled_symbol(address_t addr, bool with_offset) c
 	}
 	std::string result;
 #ifdef __linux__
-	int status = 0;
-	char* demangled = abi::__cxa_demangle(symbol->name.c_str(), nullptr, nullptr, &status);
+	// Only mangled names: others would be taken for encoded types ("f" for float)
+	int status = -2;
+	char* demangled = nullptr;
+	if (symbol->name.compare(0, 2, "_Z") == 0) {
+		demangled = abi::__cxa_demangle(symbol->name.c_str(), nullptr, nullptr, &status);
+	}
 	if (status == 0 && demangled) {
 		result = demangled;
 		std::free(demangled);
-- 
2.43.0


From 3abaf155c01c0502f0de4317f544bd64df32c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:27 +0000
Subject: [PATCH 83/87] fix: a backtrace through a symbol with a long name
 stays inside its buffer

---
 lib/libloong/machine_backtrace.cpp | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/lib/libloong/machine_backtrace.cpp b/lib/libloong/machine_backtrace.cpp
index 2bd84da..146aeac 100644
--- a/lib/libloong/machine_backtrace.cpp
+++ b/lib/libloong/machine_backtrace.cpp
@@ -49,18 +49,11 @@ std::string Machine::backtrace(address_t initial) const
 	if (initial == 0) {
 		initial = cpu.pc();
 	}
-	char buffer[4096];
-	int n = snprintf(buffer, sizeof(buffer),
-		"#-: 0x%016lx %s\n",
-		(unsigned long)initial,
-		lookup_demangled_symbol(initial).c_str());
+	// Symbol names come from the guest program and may have any length
+	char buffer[64];
+	snprintf(buffer, sizeof(buffer), "#-: 0x%016lx ", (unsigned long)initial);
 
-	std::string result;
-	if (n > 0) {
-		result.append(buffer, static_cast<size_t>(n));
-	} else {
-		return result;
-	}
+	std::string result = buffer + lookup_demangled_symbol(initial) + "\n";
 
 	/// XXX: If the binary has unwinding information, we could use that here
 	/// to do a more reliable backtrace. For now, we will just read the return
@@ -69,16 +62,8 @@ std::string Machine::backtrace(address_t initial) const
 	address_t ra = cpu.reg(REG_RA);
 	size_t depth = 0;
 	while (ra != 0 && depth < 64) {
-		int n = snprintf(buffer, sizeof(buffer),
-			"#%zu: 0x%016lx %s\n",
-			depth,
-			(unsigned long)ra,
-			lookup_demangled_symbol(ra).c_str());
-		if (n > 0) {
-			result.append(buffer, static_cast<size_t>(n));
-		} else {
-			break;
-		}
+		snprintf(buffer, sizeof(buffer), "#%zu: 0x%016lx ", depth, (unsigned long)ra);
+		result += buffer + lookup_demangled_symbol(ra) + "\n";
 		// Read next return address from stack
 		try {
 			ra = memory.template read<address_t>(sp);
-- 
2.43.0


From 5901c7c61e59b3660e5b344325c162f4e006394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:49 +0000
Subject: [PATCH 84/87] fix: emulator forwards all arguments after the program
 path to the guest

---
 emulator/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 01d7ce0..54652ab 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -323,7 +323,8 @@ static EmulatorOptions parse_arguments(int argc, char* argv[])
 	};
 
 	int opt;
-	while ((opt = getopt_long(argc, argv, "hvstf:m:nTO:", long_options, nullptr)) != -1) {
+	// Options end at the program path: what follows belongs to the guest
+	while ((opt = getopt_long(argc, argv, "+hvstf:m:nTO:", long_options, nullptr)) != -1) {
 		switch (opt) {
 		case 'h':
 			print_help(argv[0]);
-- 
2.43.0


From db4ad93b455021cfab5176b199be5fef6bf3d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:49 +0000
Subject: [PATCH 85/87] fix: emulator fails when given a 32-bit binary

---
 emulator/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 54652ab..97061b2 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -485,6 +485,7 @@ int main(int argc, char* argv[])
 		// Run program with detected architecture
 		if (is_32bit) {
 			fprintf(stderr, "Error: 32-bit LoongArch is not supported!\n");
+			return 1;
 		} else { // is_64bit
 			return run_program(binary, opts);
 		}
-- 
2.43.0


From 7a5a892abae70360f93cb585903776ab50e6d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:02 +0000
Subject: [PATCH 86/87] fix: emulator reports that the arena cannot be
 allocated

---
 emulator/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 97061b2..7546f04 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -136,9 +136,10 @@ static int run_program(const std::vector<uint8_t>& binary, const EmulatorOptions
 	void* arena_ptr = _aligned_malloc(custom_arena.total_size, 4096u);
 #else
 	void* arena_ptr = mmap(nullptr, custom_arena.total_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+	if (arena_ptr == MAP_FAILED) arena_ptr = nullptr;
 #endif
 	if (!arena_ptr) {
-		throw std::runtime_error("Failed to allocate custom arena with aligned_alloc");
+		throw std::runtime_error("Failed to allocate the custom arena");
 	}
 	Machine* machine = nullptr;
 	try {
-- 
2.43.0


From 9d3fd11edfe986ea0dd9a122a800d08583aced16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:07 +0000
Subject: [PATCH 87/87] fix: setting a moved-from guest string that is refused
 leaves an empty string the guest can read

---
 lib/libloong/guest_datatypes.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 60dd32c..c48d88f 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -710,6 +710,10 @@ private:
 			// The memory may contain anything
 			if constexpr (std::is_default_constructible_v<T>) {
 				new (m_ptr) T();
+				// Valid also when what follows is refused
+				if constexpr (has_fix_addresses<T>::value) {
+					this->m_ptr->fix_addresses(*m_machine, this->m_addr);
+				}
 			}
 		}
 	}
-- 
2.43.0


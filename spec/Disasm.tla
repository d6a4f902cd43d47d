------------------------------- MODULE Disasm -------------------------------
(* What the text of an instruction word says.  Layouts gives the operands of *)
(* every instruction in assembly order: <<kind, bit, width, shift, plus>>,   *)
(* where the kinds are r f v x registers (general, floating-point, 128-bit,  *)
(* 256-bit), c condition flags, q FCSR, z scratch registers, u and s         *)
(* unsigned and signed immediates (shifted left, then increased), b21 and    *)
(* b26 branch offsets.  The table was fitted to the output of LLVM 18        *)
(* (llvm-mc), which shares nothing with the emulator, and is checked for     *)
(* consistency with Isa.tla by MCDisasm.  A word is <<hi, lo>>: its upper 22 *)
(* and its lower 10 bits.                                                    *)
EXTENDS Isa, Word
Layouts == <<
  <<<<<<"z", 0, 2, 0, 0>>, <<"r", 5, 5, 0, 0>>>>,
     {"movgr2scr"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"z", 5, 2, 0, 0>>>>,
     {"movscr2gr"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>>>,
     {"bitrev.4b", "bitrev.8b", "bitrev.d", "bitrev.w", "clo.d", "clo.w", "clz.d", "clz.w", "cpucfg", "cto.d", "cto.w", "ctz.d", "ctz.w", "ext.w.b",
     "ext.w.h", "iocsrrd.b", "iocsrrd.d", "iocsrrd.h", "iocsrrd.w", "iocsrwr.b", "iocsrwr.d", "iocsrwr.h", "iocsrwr.w", "llacq.d", "llacq.w", "rdtime.d",
     "rdtimeh.w", "rdtimel.w", "revb.2h", "revb.2w", "revb.4h", "revb.d", "revh.2w", "revh.d", "screl.d", "screl.w", "setx86loope", "setx86loopne"}>>,
  <<<<<<"r", 5, 5, 0, 0>>>>,
     {"x86inc.h"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>, <<"u", 15, 2, 0, 1>>>>,
     {"alsl.d", "alsl.w", "alsl.wu"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>, <<"u", 15, 2, 0, 0>>>>,
     {"bytepick.w"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>, <<"u", 15, 3, 0, 0>>>>,
     {"bytepick.d"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>>>,
     {"adc.b", "adc.d", "adc.h", "adc.w", "add.d", "add.w", "and", "andn", "crc.w.b.w", "crc.w.d.w", "crc.w.h.w", "crc.w.w.w", "crcc.w.b.w", "crcc.w.d.w",
     "crcc.w.h.w", "crcc.w.w.w", "div.d", "div.du", "div.w", "div.wu", "ldgt.b", "ldgt.d", "ldgt.h", "ldgt.w", "ldle.b", "ldle.d", "ldle.h", "ldle.w",
     "ldx.b", "ldx.bu", "ldx.d", "ldx.h", "ldx.hu", "ldx.w", "ldx.wu", "maskeqz", "masknez", "mod.d", "mod.du", "mod.w", "mod.wu", "mul.d", "mul.w",
     "mulh.d", "mulh.du", "mulh.w", "mulh.wu", "mulw.d.w", "mulw.d.wu", "nor", "or", "orn", "rcr.b", "rcr.d", "rcr.h", "rcr.w", "rotr.b", "rotr.d",
     "rotr.h", "rotr.w", "sbc.b", "sbc.d", "sbc.h", "sbc.w", "sll.d", "sll.w", "slt", "sltu", "sra.d", "sra.w", "srl.d", "srl.w", "stgt.b", "stgt.d",
     "stgt.h", "stgt.w", "stle.b", "stle.d", "stle.h", "stle.w", "stx.b", "stx.d", "stx.h", "stx.w", "sub.d", "sub.w", "xor"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 5, 0, 0>>>>,
     {"addu12i.d", "addu12i.w"}>>,
  <<<<<<"u", 0, 15, 0, 0>>>>,
     {"break", "dbar", "dbcl", "hvcl", "ibar", "idle", "syscall"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 4, 0, 0>>>>,
     {"armmove", "rcri.h", "rotri.h"}>>,
  <<<<<<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>>>,
     {"x86add.du", "x86mul.h", "x86rotr.h"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 5, 0, 0>>>>,
     {"rcri.w", "rotri.w", "slli.w", "srai.w", "srli.w"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 6, 0, 0>>>>,
     {"rcri.d", "rotri.d", "slli.d", "srai.d", "srli.d"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 3, 0, 0>>>>,
     {"rcri.b", "rotri.b"}>>,
  <<<<<<"r", 5, 5, 0, 0>>, <<"u", 10, 4, 0, 0>>>>,
     {"x86slli.h"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"u", 5, 5, 0, 0>>, <<"u", 10, 8, 0, 0>>>>,
     {"x86settag"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"u", 10, 8, 0, 0>>>>,
     {"armmfflag"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 16, 5, 0, 0>>, <<"u", 10, 5, 0, 0>>>>,
     {"bstrins.w", "bstrpick.w"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 16, 6, 0, 0>>, <<"u", 10, 6, 0, 0>>>>,
     {"bstrins.d", "bstrpick.d"}>>,
  <<<<<<"f", 0, 5, 0, 0>>, <<"f", 5, 5, 0, 0>>, <<"f", 10, 5, 0, 0>>>>,
     {"fadd.d", "fadd.s", "fcopysign.d", "fcopysign.s", "fcvt.d.ld", "fdiv.d", "fdiv.s", "fmax.d", "fmax.s", "fmaxa.d", "fmaxa.s", "fmin.d", "fmin.s",
     "fmina.d", "fmina.s", "fmul.d", "fmul.s", "fscaleb.d", "fscaleb.s", "fsub.d", "fsub.s"}>>,
  <<<<<<"f", 0, 5, 0, 0>>, <<"f", 5, 5, 0, 0>>>>,
     {"fabs.d", "fabs.s", "fclass.d", "fclass.s", "fcvt.d.s", "fcvt.ld.d", "fcvt.s.d", "fcvt.ud.d", "ffint.d.l", "ffint.d.w", "ffint.s.l", "ffint.s.w",
     "flogb.d", "flogb.s", "fmov.d", "fmov.s", "fneg.d", "fneg.s", "frecip.d", "frecip.s", "frecipe.d", "frecipe.s", "frint.d", "frint.s", "frsqrt.d",
     "frsqrt.s", "frsqrte.d", "frsqrte.s", "fsqrt.d", "fsqrt.s", "ftint.l.d", "ftint.l.s", "ftint.w.d", "ftint.w.s", "ftintrm.l.d", "ftintrm.l.s",
     "ftintrm.w.d", "ftintrm.w.s", "ftintrne.l.d", "ftintrne.l.s", "ftintrne.w.d", "ftintrne.w.s", "ftintrp.l.d", "ftintrp.l.s", "ftintrp.w.d",
     "ftintrp.w.s", "ftintrz.l.d", "ftintrz.l.s", "ftintrz.w.d", "ftintrz.w.s"}>>,
  <<<<<<"f", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>>>,
     {"movgr2fr.d", "movgr2fr.w", "movgr2frh.w"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"f", 5, 5, 0, 0>>>>,
     {"movfr2gr.d", "movfr2gr.s", "movfrh2gr.s"}>>,
  <<<<<<"q", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>>>,
     {"movgr2fcsr"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"q", 5, 5, 0, 0>>>>,
     {"movfcsr2gr"}>>,
  <<<<<<"c", 0, 3, 0, 0>>, <<"f", 5, 5, 0, 0>>>>,
     {"movfr2cf"}>>,
  <<<<<<"f", 0, 5, 0, 0>>, <<"c", 5, 3, 0, 0>>>>,
     {"movcf2fr"}>>,
  <<<<<<"c", 0, 3, 0, 0>>, <<"r", 5, 5, 0, 0>>>>,
     {"movgr2cf"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"c", 5, 3, 0, 0>>>>,
     {"movcf2gr"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 12, 0, 0>>>>,
     {"addi.d", "addi.w", "ld.b", "ld.bu", "ld.d", "ld.h", "ld.hu", "ld.w", "ld.wu", "ldl.d", "ldl.w", "ldr.d", "ldr.w", "lu52i.d", "slti", "sltui",
     "st.b", "st.d", "st.h", "st.w", "stl.d", "stl.w", "str.d", "str.w"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 12, 0, 0>>>>,
     {"andi", "ori", "xori"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 14, 0, 0>>>>,
     {"csrxchg", "gcsrxchg"}>>,
  <<<<<<"u", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 12, 0, 0>>>>,
     {"cacop", "preld"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 8, 0, 0>>>>,
     {"lddir"}>>,
  <<<<<<"u", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>>>,
     {"invtlb", "preldx"}>>,
  <<<<<<"f", 0, 5, 0, 0>>, <<"f", 5, 5, 0, 0>>, <<"f", 10, 5, 0, 0>>, <<"f", 15, 5, 0, 0>>>>,
     {"fmadd.d", "fmadd.s", "fmsub.d", "fmsub.s", "fnmadd.d", "fnmadd.s", "fnmsub.d", "fnmsub.s"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"v", 10, 5, 0, 0>>, <<"v", 15, 5, 0, 0>>>>,
     {"vbitsel.v", "vfmadd.d", "vfmadd.s", "vfmsub.d", "vfmsub.s", "vfnmadd.d", "vfnmadd.s", "vfnmsub.d", "vfnmsub.s", "vshuf.b"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"x", 10, 5, 0, 0>>, <<"x", 15, 5, 0, 0>>>>,
     {"xvbitsel.v", "xvfmadd.d", "xvfmadd.s", "xvfmsub.d", "xvfmsub.s", "xvfnmadd.d", "xvfnmadd.s", "xvfnmsub.d", "xvfnmsub.s", "xvshuf.b"}>>,
  <<<<<<"c", 0, 3, 0, 0>>, <<"f", 5, 5, 0, 0>>, <<"f", 10, 5, 0, 0>>>>,
     {"fcmp.caf.d", "fcmp.caf.s", "fcmp.ceq.d", "fcmp.ceq.s", "fcmp.cle.d", "fcmp.cle.s", "fcmp.clt.d", "fcmp.clt.s", "fcmp.cne.d", "fcmp.cne.s",
     "fcmp.cor.d", "fcmp.cor.s", "fcmp.cueq.d", "fcmp.cueq.s", "fcmp.cule.d", "fcmp.cule.s", "fcmp.cult.d", "fcmp.cult.s", "fcmp.cun.d", "fcmp.cun.s",
     "fcmp.cune.d", "fcmp.cune.s", "fcmp.saf.d", "fcmp.saf.s", "fcmp.seq.d", "fcmp.seq.s", "fcmp.sle.d", "fcmp.sle.s", "fcmp.slt.d", "fcmp.slt.s",
     "fcmp.sne.d", "fcmp.sne.s", "fcmp.sor.d", "fcmp.sor.s", "fcmp.sueq.d", "fcmp.sueq.s", "fcmp.sule.d", "fcmp.sule.s", "fcmp.sult.d", "fcmp.sult.s",
     "fcmp.sun.d", "fcmp.sun.s", "fcmp.sune.d", "fcmp.sune.s"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"v", 10, 5, 0, 0>>>>,
     {"vabsd.b", "vabsd.bu", "vabsd.d", "vabsd.du", "vabsd.h", "vabsd.hu", "vabsd.w", "vabsd.wu", "vadd.b", "vadd.d", "vadd.h", "vadd.q", "vadd.w",
     "vadda.b", "vadda.d", "vadda.h", "vadda.w", "vaddwev.d.w", "vaddwev.d.wu", "vaddwev.d.wu.w", "vaddwev.h.b", "vaddwev.h.bu", "vaddwev.h.bu.b",
     "vaddwev.q.d", "vaddwev.q.du", "vaddwev.q.du.d", "vaddwev.w.h", "vaddwev.w.hu", "vaddwev.w.hu.h", "vaddwod.d.w", "vaddwod.d.wu", "vaddwod.d.wu.w",
     "vaddwod.h.b", "vaddwod.h.bu", "vaddwod.h.bu.b", "vaddwod.q.d", "vaddwod.q.du", "vaddwod.q.du.d", "vaddwod.w.h", "vaddwod.w.hu", "vaddwod.w.hu.h",
     "vand.v", "vandn.v", "vavg.b", "vavg.bu", "vavg.d", "vavg.du", "vavg.h", "vavg.hu", "vavg.w", "vavg.wu", "vavgr.b", "vavgr.bu", "vavgr.d", "vavgr.du",
     "vavgr.h", "vavgr.hu", "vavgr.w", "vavgr.wu", "vbitclr.b", "vbitclr.d", "vbitclr.h", "vbitclr.w", "vbitrev.b", "vbitrev.d", "vbitrev.h", "vbitrev.w",
     "vbitset.b", "vbitset.d", "vbitset.h", "vbitset.w", "vdiv.b", "vdiv.bu", "vdiv.d", "vdiv.du", "vdiv.h", "vdiv.hu", "vdiv.w", "vdiv.wu", "vfadd.d",
     "vfadd.s", "vfcmp.caf.d", "vfcmp.caf.s", "vfcmp.ceq.d", "vfcmp.ceq.s", "vfcmp.cle.d", "vfcmp.cle.s", "vfcmp.clt.d", "vfcmp.clt.s", "vfcmp.cne.d",
     "vfcmp.cne.s", "vfcmp.cor.d", "vfcmp.cor.s", "vfcmp.cueq.d", "vfcmp.cueq.s", "vfcmp.cule.d", "vfcmp.cule.s", "vfcmp.cult.d", "vfcmp.cult.s",
     "vfcmp.cun.d", "vfcmp.cun.s", "vfcmp.cune.d", "vfcmp.cune.s", "vfcmp.saf.d", "vfcmp.saf.s", "vfcmp.seq.d", "vfcmp.seq.s", "vfcmp.sle.d",
     "vfcmp.sle.s", "vfcmp.slt.d", "vfcmp.slt.s", "vfcmp.sne.d", "vfcmp.sne.s", "vfcmp.sor.d", "vfcmp.sor.s", "vfcmp.sueq.d", "vfcmp.sueq.s",
     "vfcmp.sule.d", "vfcmp.sule.s", "vfcmp.sult.d", "vfcmp.sult.s", "vfcmp.sun.d", "vfcmp.sun.s", "vfcmp.sune.d", "vfcmp.sune.s", "vfcvt.h.s",
     "vfcvt.s.d", "vfdiv.d", "vfdiv.s", "vffint.s.l", "vfmax.d", "vfmax.s", "vfmaxa.d", "vfmaxa.s", "vfmin.d", "vfmin.s", "vfmina.d", "vfmina.s",
     "vfmul.d", "vfmul.s", "vfrstp.b", "vfrstp.h", "vfsub.d", "vfsub.s", "vftint.w.d", "vftintrm.w.d", "vftintrne.w.d", "vftintrp.w.d", "vftintrz.w.d",
     "vhaddw.d.w", "vhaddw.du.wu", "vhaddw.h.b", "vhaddw.hu.bu", "vhaddw.q.d", "vhaddw.qu.du", "vhaddw.w.h", "vhaddw.wu.hu", "vhsubw.d.w", "vhsubw.du.wu",
     "vhsubw.h.b", "vhsubw.hu.bu", "vhsubw.q.d", "vhsubw.qu.du", "vhsubw.w.h", "vhsubw.wu.hu", "vilvh.b", "vilvh.d", "vilvh.h", "vilvh.w", "vilvl.b",
     "vilvl.d", "vilvl.h", "vilvl.w", "vmadd.b", "vmadd.d", "vmadd.h", "vmadd.w", "vmaddwev.d.w", "vmaddwev.d.wu", "vmaddwev.d.wu.w", "vmaddwev.h.b",
     "vmaddwev.h.bu", "vmaddwev.h.bu.b", "vmaddwev.q.d", "vmaddwev.q.du", "vmaddwev.q.du.d", "vmaddwev.w.h", "vmaddwev.w.hu", "vmaddwev.w.hu.h",
     "vmaddwod.d.w", "vmaddwod.d.wu", "vmaddwod.d.wu.w", "vmaddwod.h.b", "vmaddwod.h.bu", "vmaddwod.h.bu.b", "vmaddwod.q.d", "vmaddwod.q.du",
     "vmaddwod.q.du.d", "vmaddwod.w.h", "vmaddwod.w.hu", "vmaddwod.w.hu.h", "vmax.b", "vmax.bu", "vmax.d", "vmax.du", "vmax.h", "vmax.hu", "vmax.w",
     "vmax.wu", "vmin.b", "vmin.bu", "vmin.d", "vmin.du", "vmin.h", "vmin.hu", "vmin.w", "vmin.wu", "vmod.b", "vmod.bu", "vmod.d", "vmod.du", "vmod.h",
     "vmod.hu", "vmod.w", "vmod.wu", "vmsub.b", "vmsub.d", "vmsub.h", "vmsub.w", "vmuh.b", "vmuh.bu", "vmuh.d", "vmuh.du", "vmuh.h", "vmuh.hu", "vmuh.w",
     "vmuh.wu", "vmul.b", "vmul.d", "vmul.h", "vmul.w", "vmulwev.d.w", "vmulwev.d.wu", "vmulwev.d.wu.w", "vmulwev.h.b", "vmulwev.h.bu", "vmulwev.h.bu.b",
     "vmulwev.q.d", "vmulwev.q.du", "vmulwev.q.du.d", "vmulwev.w.h", "vmulwev.w.hu", "vmulwev.w.hu.h", "vmulwod.d.w", "vmulwod.d.wu", "vmulwod.d.wu.w",
     "vmulwod.h.b", "vmulwod.h.bu", "vmulwod.h.bu.b", "vmulwod.q.d", "vmulwod.q.du", "vmulwod.q.du.d", "vmulwod.w.h", "vmulwod.w.hu", "vmulwod.w.hu.h",
     "vnor.v", "vor.v", "vorn.v", "vpackev.b", "vpackev.d", "vpackev.h", "vpackev.w", "vpackod.b", "vpackod.d", "vpackod.h", "vpackod.w", "vpickev.b",
     "vpickev.d", "vpickev.h", "vpickev.w", "vpickod.b", "vpickod.d", "vpickod.h", "vpickod.w", "vrotr.b", "vrotr.d", "vrotr.h", "vrotr.w", "vsadd.b",
     "vsadd.bu", "vsadd.d", "vsadd.du", "vsadd.h", "vsadd.hu", "vsadd.w", "vsadd.wu", "vseq.b", "vseq.d", "vseq.h", "vseq.w", "vshuf.d", "vshuf.h",
     "vshuf.w", "vsigncov.b", "vsigncov.d", "vsigncov.h", "vsigncov.w", "vsle.b", "vsle.bu", "vsle.d", "vsle.du", "vsle.h", "vsle.hu", "vsle.w", "vsle.wu",
     "vsll.b", "vsll.d", "vsll.h", "vsll.w", "vslt.b", "vslt.bu", "vslt.d", "vslt.du", "vslt.h", "vslt.hu", "vslt.w", "vslt.wu", "vsra.b", "vsra.d",
     "vsra.h", "vsra.w", "vsran.b.h", "vsran.h.w", "vsran.w.d", "vsrar.b", "vsrar.d", "vsrar.h", "vsrar.w", "vsrarn.b.h", "vsrarn.h.w", "vsrarn.w.d",
     "vsrl.b", "vsrl.d", "vsrl.h", "vsrl.w", "vsrln.b.h", "vsrln.h.w", "vsrln.w.d", "vsrlr.b", "vsrlr.d", "vsrlr.h", "vsrlr.w", "vsrlrn.b.h", "vsrlrn.h.w",
     "vsrlrn.w.d", "vssran.b.h", "vssran.bu.h", "vssran.h.w", "vssran.hu.w", "vssran.w.d", "vssran.wu.d", "vssrarn.b.h", "vssrarn.bu.h", "vssrarn.h.w",
     "vssrarn.hu.w", "vssrarn.w.d", "vssrarn.wu.d", "vssrln.b.h", "vssrln.bu.h", "vssrln.h.w", "vssrln.hu.w", "vssrln.w.d", "vssrln.wu.d", "vssrlrn.b.h",
     "vssrlrn.bu.h", "vssrlrn.h.w", "vssrlrn.hu.w", "vssrlrn.w.d", "vssrlrn.wu.d", "vssub.b", "vssub.bu", "vssub.d", "vssub.du", "vssub.h", "vssub.hu",
     "vssub.w", "vssub.wu", "vsub.b", "vsub.d", "vsub.h", "vsub.q", "vsub.w", "vsubwev.d.w", "vsubwev.d.wu", "vsubwev.h.b", "vsubwev.h.bu", "vsubwev.q.d",
     "vsubwev.q.du", "vsubwev.w.h", "vsubwev.w.hu", "vsubwod.d.w", "vsubwod.d.wu", "vsubwod.h.b", "vsubwod.h.bu", "vsubwod.q.d", "vsubwod.q.du",
     "vsubwod.w.h", "vsubwod.w.hu", "vxor.v"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"x", 10, 5, 0, 0>>>>,
     {"xvabsd.b", "xvabsd.bu", "xvabsd.d", "xvabsd.du", "xvabsd.h", "xvabsd.hu", "xvabsd.w", "xvabsd.wu", "xvadd.b", "xvadd.d", "xvadd.h", "xvadd.q",
     "xvadd.w", "xvadda.b", "xvadda.d", "xvadda.h", "xvadda.w", "xvaddwev.d.w", "xvaddwev.d.wu", "xvaddwev.d.wu.w", "xvaddwev.h.b", "xvaddwev.h.bu",
     "xvaddwev.h.bu.b", "xvaddwev.q.d", "xvaddwev.q.du", "xvaddwev.q.du.d", "xvaddwev.w.h", "xvaddwev.w.hu", "xvaddwev.w.hu.h", "xvaddwod.d.w",
     "xvaddwod.d.wu", "xvaddwod.d.wu.w", "xvaddwod.h.b", "xvaddwod.h.bu", "xvaddwod.h.bu.b", "xvaddwod.q.d", "xvaddwod.q.du", "xvaddwod.q.du.d",
     "xvaddwod.w.h", "xvaddwod.w.hu", "xvaddwod.w.hu.h", "xvand.v", "xvandn.v", "xvavg.b", "xvavg.bu", "xvavg.d", "xvavg.du", "xvavg.h", "xvavg.hu",
     "xvavg.w", "xvavg.wu", "xvavgr.b", "xvavgr.bu", "xvavgr.d", "xvavgr.du", "xvavgr.h", "xvavgr.hu", "xvavgr.w", "xvavgr.wu", "xvbitclr.b", "xvbitclr.d",
     "xvbitclr.h", "xvbitclr.w", "xvbitrev.b", "xvbitrev.d", "xvbitrev.h", "xvbitrev.w", "xvbitset.b", "xvbitset.d", "xvbitset.h", "xvbitset.w", "xvdiv.b",
     "xvdiv.bu", "xvdiv.d", "xvdiv.du", "xvdiv.h", "xvdiv.hu", "xvdiv.w", "xvdiv.wu", "xvfadd.d", "xvfadd.s", "xvfcmp.caf.d", "xvfcmp.caf.s",
     "xvfcmp.ceq.d", "xvfcmp.ceq.s", "xvfcmp.cle.d", "xvfcmp.cle.s", "xvfcmp.clt.d", "xvfcmp.clt.s", "xvfcmp.cne.d", "xvfcmp.cne.s", "xvfcmp.cor.d",
     "xvfcmp.cor.s", "xvfcmp.cueq.d", "xvfcmp.cueq.s", "xvfcmp.cule.d", "xvfcmp.cule.s", "xvfcmp.cult.d", "xvfcmp.cult.s", "xvfcmp.cun.d", "xvfcmp.cun.s",
     "xvfcmp.cune.d", "xvfcmp.cune.s", "xvfcmp.saf.d", "xvfcmp.saf.s", "xvfcmp.seq.d", "xvfcmp.seq.s", "xvfcmp.sle.d", "xvfcmp.sle.s", "xvfcmp.slt.d",
     "xvfcmp.slt.s", "xvfcmp.sne.d", "xvfcmp.sne.s", "xvfcmp.sor.d", "xvfcmp.sor.s", "xvfcmp.sueq.d", "xvfcmp.sueq.s", "xvfcmp.sule.d", "xvfcmp.sule.s",
     "xvfcmp.sult.d", "xvfcmp.sult.s", "xvfcmp.sun.d", "xvfcmp.sun.s", "xvfcmp.sune.d", "xvfcmp.sune.s", "xvfcvt.h.s", "xvfcvt.s.d", "xvfdiv.d",
     "xvfdiv.s", "xvffint.s.l", "xvfmax.d", "xvfmax.s", "xvfmaxa.d", "xvfmaxa.s", "xvfmin.d", "xvfmin.s", "xvfmina.d", "xvfmina.s", "xvfmul.d", "xvfmul.s",
     "xvfrstp.b", "xvfrstp.h", "xvfsub.d", "xvfsub.s", "xvftint.w.d", "xvftintrm.w.d", "xvftintrne.w.d", "xvftintrp.w.d", "xvftintrz.w.d", "xvhaddw.d.w",
     "xvhaddw.du.wu", "xvhaddw.h.b", "xvhaddw.hu.bu", "xvhaddw.q.d", "xvhaddw.qu.du", "xvhaddw.w.h", "xvhaddw.wu.hu", "xvhsubw.d.w", "xvhsubw.du.wu",
     "xvhsubw.h.b", "xvhsubw.hu.bu", "xvhsubw.q.d", "xvhsubw.qu.du", "xvhsubw.w.h", "xvhsubw.wu.hu", "xvilvh.b", "xvilvh.d", "xvilvh.h", "xvilvh.w",
     "xvilvl.b", "xvilvl.d", "xvilvl.h", "xvilvl.w", "xvmadd.b", "xvmadd.d", "xvmadd.h", "xvmadd.w", "xvmaddwev.d.w", "xvmaddwev.d.wu", "xvmaddwev.d.wu.w",
     "xvmaddwev.h.b", "xvmaddwev.h.bu", "xvmaddwev.h.bu.b", "xvmaddwev.q.d", "xvmaddwev.q.du", "xvmaddwev.q.du.d", "xvmaddwev.w.h", "xvmaddwev.w.hu",
     "xvmaddwev.w.hu.h", "xvmaddwod.d.w", "xvmaddwod.d.wu", "xvmaddwod.d.wu.w", "xvmaddwod.h.b", "xvmaddwod.h.bu", "xvmaddwod.h.bu.b", "xvmaddwod.q.d",
     "xvmaddwod.q.du", "xvmaddwod.q.du.d", "xvmaddwod.w.h", "xvmaddwod.w.hu", "xvmaddwod.w.hu.h", "xvmax.b", "xvmax.bu", "xvmax.d", "xvmax.du", "xvmax.h",
     "xvmax.hu", "xvmax.w", "xvmax.wu", "xvmin.b", "xvmin.bu", "xvmin.d", "xvmin.du", "xvmin.h", "xvmin.hu", "xvmin.w", "xvmin.wu", "xvmod.b", "xvmod.bu",
     "xvmod.d", "xvmod.du", "xvmod.h", "xvmod.hu", "xvmod.w", "xvmod.wu", "xvmsub.b", "xvmsub.d", "xvmsub.h", "xvmsub.w", "xvmuh.b", "xvmuh.bu", "xvmuh.d",
     "xvmuh.du", "xvmuh.h", "xvmuh.hu", "xvmuh.w", "xvmuh.wu", "xvmul.b", "xvmul.d", "xvmul.h", "xvmul.w", "xvmulwev.d.w", "xvmulwev.d.wu",
     "xvmulwev.d.wu.w", "xvmulwev.h.b", "xvmulwev.h.bu", "xvmulwev.h.bu.b", "xvmulwev.q.d", "xvmulwev.q.du", "xvmulwev.q.du.d", "xvmulwev.w.h",
     "xvmulwev.w.hu", "xvmulwev.w.hu.h", "xvmulwod.d.w", "xvmulwod.d.wu", "xvmulwod.d.wu.w", "xvmulwod.h.b", "xvmulwod.h.bu", "xvmulwod.h.bu.b",
     "xvmulwod.q.d", "xvmulwod.q.du", "xvmulwod.q.du.d", "xvmulwod.w.h", "xvmulwod.w.hu", "xvmulwod.w.hu.h", "xvnor.v", "xvor.v", "xvorn.v", "xvpackev.b",
     "xvpackev.d", "xvpackev.h", "xvpackev.w", "xvpackod.b", "xvpackod.d", "xvpackod.h", "xvpackod.w", "xvperm.w", "xvpickev.b", "xvpickev.d",
     "xvpickev.h", "xvpickev.w", "xvpickod.b", "xvpickod.d", "xvpickod.h", "xvpickod.w", "xvrotr.b", "xvrotr.d", "xvrotr.h", "xvrotr.w", "xvsadd.b",
     "xvsadd.bu", "xvsadd.d", "xvsadd.du", "xvsadd.h", "xvsadd.hu", "xvsadd.w", "xvsadd.wu", "xvseq.b", "xvseq.d", "xvseq.h", "xvseq.w", "xvshuf.d",
     "xvshuf.h", "xvshuf.w", "xvsigncov.b", "xvsigncov.d", "xvsigncov.h", "xvsigncov.w", "xvsle.b", "xvsle.bu", "xvsle.d", "xvsle.du", "xvsle.h",
     "xvsle.hu", "xvsle.w", "xvsle.wu", "xvsll.b", "xvsll.d", "xvsll.h", "xvsll.w", "xvslt.b", "xvslt.bu", "xvslt.d", "xvslt.du", "xvslt.h", "xvslt.hu",
     "xvslt.w", "xvslt.wu", "xvsra.b", "xvsra.d", "xvsra.h", "xvsra.w", "xvsran.b.h", "xvsran.h.w", "xvsran.w.d", "xvsrar.b", "xvsrar.d", "xvsrar.h",
     "xvsrar.w", "xvsrarn.b.h", "xvsrarn.h.w", "xvsrarn.w.d", "xvsrl.b", "xvsrl.d", "xvsrl.h", "xvsrl.w", "xvsrln.b.h", "xvsrln.h.w", "xvsrln.w.d",
     "xvsrlr.b", "xvsrlr.d", "xvsrlr.h", "xvsrlr.w", "xvsrlrn.b.h", "xvsrlrn.h.w", "xvsrlrn.w.d", "xvssran.b.h", "xvssran.bu.h", "xvssran.h.w",
     "xvssran.hu.w", "xvssran.w.d", "xvssran.wu.d", "xvssrarn.b.h", "xvssrarn.bu.h", "xvssrarn.h.w", "xvssrarn.hu.w", "xvssrarn.w.d", "xvssrarn.wu.d",
     "xvssrln.b.h", "xvssrln.bu.h", "xvssrln.h.w", "xvssrln.hu.w", "xvssrln.w.d", "xvssrln.wu.d", "xvssrlrn.b.h", "xvssrlrn.bu.h", "xvssrlrn.h.w",
     "xvssrlrn.hu.w", "xvssrlrn.w.d", "xvssrlrn.wu.d", "xvssub.b", "xvssub.bu", "xvssub.d", "xvssub.du", "xvssub.h", "xvssub.hu", "xvssub.w", "xvssub.wu",
     "xvsub.b", "xvsub.d", "xvsub.h", "xvsub.q", "xvsub.w", "xvsubwev.d.w", "xvsubwev.d.wu", "xvsubwev.h.b", "xvsubwev.h.bu", "xvsubwev.q.d",
     "xvsubwev.q.du", "xvsubwev.w.h", "xvsubwev.w.hu", "xvsubwod.d.w", "xvsubwod.d.wu", "xvsubwod.h.b", "xvsubwod.h.bu", "xvsubwod.q.d", "xvsubwod.q.du",
     "xvsubwod.w.h", "xvsubwod.w.hu", "xvxor.v"}>>,
  <<<<<<"f", 0, 5, 0, 0>>, <<"f", 5, 5, 0, 0>>, <<"f", 10, 5, 0, 0>>, <<"c", 15, 3, 0, 0>>>>,
     {"fsel"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 16, 0, 0>>>>,
     {"addu16i.d"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"s", 5, 20, 0, 0>>>>,
     {"lu12i.w", "lu32i.d", "pcaddi", "pcaddu12i", "pcaddu18i", "pcalau12i"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 14, 2, 0>>>>,
     {"ldptr.d", "ldptr.w", "ll.d", "ll.w", "sc.d", "sc.w", "stptr.d", "stptr.w"}>>,
  <<<<<<"f", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 12, 0, 0>>>>,
     {"fld.d", "fld.s", "fst.d", "fst.s"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 12, 0, 0>>>>,
     {"vld", "vldrepl.b", "vst"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 12, 0, 0>>>>,
     {"xvld", "xvldrepl.b", "xvst"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 9, 3, 0>>>>,
     {"vldrepl.d"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 10, 2, 0>>>>,
     {"vldrepl.w"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 11, 1, 0>>>>,
     {"vldrepl.h"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 8, 3, 0>>, <<"u", 18, 1, 0, 0>>>>,
     {"vstelm.d"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 8, 2, 0>>, <<"u", 18, 2, 0, 0>>>>,
     {"vstelm.w"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 8, 1, 0>>, <<"u", 18, 3, 0, 0>>>>,
     {"vstelm.h"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 8, 0, 0>>, <<"u", 18, 4, 0, 0>>>>,
     {"vstelm.b"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 9, 3, 0>>>>,
     {"xvldrepl.d"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 10, 2, 0>>>>,
     {"xvldrepl.w"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 11, 1, 0>>>>,
     {"xvldrepl.h"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 8, 3, 0>>, <<"u", 18, 2, 0, 0>>>>,
     {"xvstelm.d"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 8, 2, 0>>, <<"u", 18, 3, 0, 0>>>>,
     {"xvstelm.w"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 8, 1, 0>>, <<"u", 18, 4, 0, 0>>>>,
     {"xvstelm.h"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 8, 0, 0>>, <<"u", 18, 5, 0, 0>>>>,
     {"xvstelm.b"}>>,
  <<<<<<"f", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>>>,
     {"fldgt.d", "fldgt.s", "fldle.d", "fldle.s", "fldx.d", "fldx.s", "fstgt.d", "fstgt.s", "fstle.d", "fstle.s", "fstx.d", "fstx.s"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>>>,
     {"vldx", "vstx"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>>>,
     {"xvldx", "xvstx"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>>>,
     {"amadd.b", "amadd.d", "amadd.h", "amadd.w", "amadd_db.b", "amadd_db.d", "amadd_db.h", "amadd_db.w", "amand.d", "amand.w", "amand_db.d", "amand_db.w",
     "amcas.b", "amcas.d", "amcas.h", "amcas.w", "amcas_db.b", "amcas_db.d", "amcas_db.h", "amcas_db.w", "ammax.d", "ammax.du", "ammax.w", "ammax.wu",
     "ammax_db.d", "ammax_db.du", "ammax_db.w", "ammax_db.wu", "ammin.d", "ammin.du", "ammin.w", "ammin.wu", "ammin_db.d", "ammin_db.du", "ammin_db.w",
     "ammin_db.wu", "amor.d", "amor.w", "amor_db.d", "amor_db.w", "amswap.b", "amswap.d", "amswap.h", "amswap.w", "amswap_db.b", "amswap_db.d",
     "amswap_db.h", "amswap_db.w", "amxor.d", "amxor.w", "amxor_db.d", "amxor_db.w", "sc.q"}>>,
  <<<<<<"r", 5, 5, 0, 0>>, <<"b21", 0, 0, 2, 0>>>>,
     {"beqz", "bnez"}>>,
  <<<<<<"c", 5, 3, 0, 0>>, <<"b21", 0, 0, 2, 0>>>>,
     {"bceqz", "bcnez"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"s", 10, 16, 2, 0>>>>,
     {"jirl"}>>,
  <<<<<<"b26", 0, 0, 2, 0>>>>,
     {"b", "bl"}>>,
  <<<<<<"r", 5, 5, 0, 0>>, <<"r", 0, 5, 0, 0>>, <<"s", 10, 16, 2, 0>>>>,
     {"beq", "bge", "bgeu", "blt", "bltu", "bne"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>>>,
     {"vreplve.b", "vreplve.d", "vreplve.h", "vreplve.w"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"s", 10, 5, 0, 0>>>>,
     {"vmaxi.b", "vmaxi.d", "vmaxi.h", "vmaxi.w", "vmini.b", "vmini.d", "vmini.h", "vmini.w", "vseqi.b", "vseqi.d", "vseqi.h", "vseqi.w", "vslei.b",
     "vslei.d", "vslei.h", "vslei.w", "vslti.b", "vslti.d", "vslti.h", "vslti.w"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 5, 0, 0>>>>,
     {"vaddi.bu", "vaddi.du", "vaddi.hu", "vaddi.wu", "vbitclri.w", "vbitrevi.w", "vbitseti.w", "vbsll.v", "vbsrl.v", "vfrstpi.b", "vfrstpi.h", "vmaxi.bu",
     "vmaxi.du", "vmaxi.hu", "vmaxi.wu", "vmini.bu", "vmini.du", "vmini.hu", "vmini.wu", "vrotri.w", "vsat.w", "vsat.wu", "vslei.bu", "vslei.du",
     "vslei.hu", "vslei.wu", "vslli.w", "vsllwil.d.w", "vsllwil.du.wu", "vslti.bu", "vslti.du", "vslti.hu", "vslti.wu", "vsrai.w", "vsrani.h.w",
     "vsrari.w", "vsrarni.h.w", "vsrli.w", "vsrlni.h.w", "vsrlri.w", "vsrlrni.h.w", "vssrani.h.w", "vssrani.hu.w", "vssrarni.h.w", "vssrarni.hu.w",
     "vssrlni.h.w", "vssrlni.hu.w", "vssrlrni.h.w", "vssrlrni.hu.w", "vsubi.bu", "vsubi.du", "vsubi.hu", "vsubi.wu"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>>>,
     {"vclo.b", "vclo.d", "vclo.h", "vclo.w", "vclz.b", "vclz.d", "vclz.h", "vclz.w", "vexth.d.w", "vexth.du.wu", "vexth.h.b", "vexth.hu.bu", "vexth.q.d",
     "vexth.qu.du", "vexth.w.h", "vexth.wu.hu", "vextl.q.d", "vextl.qu.du", "vfclass.d", "vfclass.s", "vfcvth.d.s", "vfcvth.s.h", "vfcvtl.d.s",
     "vfcvtl.s.h", "vffint.d.l", "vffint.d.lu", "vffint.s.w", "vffint.s.wu", "vffinth.d.w", "vffintl.d.w", "vflogb.d", "vflogb.s", "vfrecip.d",
     "vfrecip.s", "vfrecipe.d", "vfrecipe.s", "vfrint.d", "vfrint.s", "vfrintrm.d", "vfrintrm.s", "vfrintrne.d", "vfrintrne.s", "vfrintrp.d", "vfrintrp.s",
     "vfrintrz.d", "vfrintrz.s", "vfrsqrt.d", "vfrsqrt.s", "vfrsqrte.d", "vfrsqrte.s", "vfsqrt.d", "vfsqrt.s", "vftint.l.d", "vftint.lu.d", "vftint.w.s",
     "vftint.wu.s", "vftinth.l.s", "vftintl.l.s", "vftintrm.l.d", "vftintrm.w.s", "vftintrmh.l.s", "vftintrml.l.s", "vftintrne.l.d", "vftintrne.w.s",
     "vftintrneh.l.s", "vftintrnel.l.s", "vftintrp.l.d", "vftintrp.w.s", "vftintrph.l.s", "vftintrpl.l.s", "vftintrz.l.d", "vftintrz.lu.d", "vftintrz.w.s",
     "vftintrz.wu.s", "vftintrzh.l.s", "vftintrzl.l.s", "vmskgez.b", "vmskltz.b", "vmskltz.d", "vmskltz.h", "vmskltz.w", "vmsknz.b", "vneg.b", "vneg.d",
     "vneg.h", "vneg.w", "vpcnt.b", "vpcnt.d", "vpcnt.h", "vpcnt.w"}>>,
  <<<<<<"c", 0, 3, 0, 0>>, <<"v", 5, 5, 0, 0>>>>,
     {"vsetallnez.b", "vsetallnez.d", "vsetallnez.h", "vsetallnez.w", "vsetanyeqz.b", "vsetanyeqz.d", "vsetanyeqz.h", "vsetanyeqz.w", "vseteqz.v",
     "vsetnez.v"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>>>,
     {"vreplgr2vr.b", "vreplgr2vr.d", "vreplgr2vr.h", "vreplgr2vr.w"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 3, 0, 0>>>>,
     {"vbitclri.b", "vbitrevi.b", "vbitseti.b", "vreplvei.h", "vrotri.b", "vsat.b", "vsat.bu", "vslli.b", "vsllwil.h.b", "vsllwil.hu.bu", "vsrai.b",
     "vsrari.b", "vsrli.b", "vsrlri.b"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 4, 0, 0>>>>,
     {"vbitclri.h", "vbitrevi.h", "vbitseti.h", "vreplvei.b", "vrotri.h", "vsat.h", "vsat.hu", "vslli.h", "vsllwil.w.h", "vsllwil.wu.hu", "vsrai.h",
     "vsrani.b.h", "vsrari.h", "vsrarni.b.h", "vsrli.h", "vsrlni.b.h", "vsrlri.h", "vsrlrni.b.h", "vssrani.b.h", "vssrani.bu.h", "vssrarni.b.h",
     "vssrarni.bu.h", "vssrlni.b.h", "vssrlni.bu.h", "vssrlrni.b.h", "vssrlrni.bu.h"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 6, 0, 0>>>>,
     {"vbitclri.d", "vbitrevi.d", "vbitseti.d", "vrotri.d", "vsat.d", "vsat.du", "vslli.d", "vsrai.d", "vsrani.w.d", "vsrari.d", "vsrarni.w.d", "vsrli.d",
     "vsrlni.w.d", "vsrlri.d", "vsrlrni.w.d", "vssrani.w.d", "vssrani.wu.d", "vssrarni.w.d", "vssrarni.wu.d", "vssrlni.w.d", "vssrlni.wu.d",
     "vssrlrni.w.d", "vssrlrni.wu.d"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 4, 0, 0>>>>,
     {"vinsgr2vr.b"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 3, 0, 0>>>>,
     {"vinsgr2vr.h"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 2, 0, 0>>>>,
     {"vinsgr2vr.w"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 1, 0, 0>>>>,
     {"vinsgr2vr.d"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 4, 0, 0>>>>,
     {"vpickve2gr.b", "vpickve2gr.bu"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 3, 0, 0>>>>,
     {"vpickve2gr.h", "vpickve2gr.hu"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 2, 0, 0>>>>,
     {"vpickve2gr.w", "vpickve2gr.wu"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 1, 0, 0>>>>,
     {"vpickve2gr.d", "vpickve2gr.du"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 2, 0, 0>>>>,
     {"vreplvei.w"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 1, 0, 0>>>>,
     {"vreplvei.d"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 7, 0, 0>>>>,
     {"vsrani.d.q", "vsrarni.d.q", "vsrlni.d.q", "vsrlrni.d.q", "vssrani.d.q", "vssrani.du.q", "vssrarni.d.q", "vssrarni.du.q", "vssrlni.d.q",
     "vssrlni.du.q", "vssrlrni.d.q", "vssrlrni.du.q"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"v", 5, 5, 0, 0>>, <<"u", 10, 8, 0, 0>>>>,
     {"vandi.b", "vbitseli.b", "vextrins.b", "vextrins.d", "vextrins.h", "vextrins.w", "vnori.b", "vori.b", "vpermi.w", "vshuf4i.b", "vshuf4i.d",
     "vshuf4i.h", "vshuf4i.w", "vxori.b"}>>,
  <<<<<<"v", 0, 5, 0, 0>>, <<"s", 5, 13, 0, 0>>>>,
     {"vldi"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"r", 10, 5, 0, 0>>>>,
     {"xvreplve.b", "xvreplve.d", "xvreplve.h", "xvreplve.w"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"s", 10, 5, 0, 0>>>>,
     {"xvmaxi.b", "xvmaxi.d", "xvmaxi.h", "xvmaxi.w", "xvmini.b", "xvmini.d", "xvmini.h", "xvmini.w", "xvseqi.b", "xvseqi.d", "xvseqi.h", "xvseqi.w",
     "xvslei.b", "xvslei.d", "xvslei.h", "xvslei.w", "xvslti.b", "xvslti.d", "xvslti.h", "xvslti.w"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 5, 0, 0>>>>,
     {"xvaddi.bu", "xvaddi.du", "xvaddi.hu", "xvaddi.wu", "xvbitclri.w", "xvbitrevi.w", "xvbitseti.w", "xvbsll.v", "xvbsrl.v", "xvfrstpi.b", "xvfrstpi.h",
     "xvhseli.d", "xvmaxi.bu", "xvmaxi.du", "xvmaxi.hu", "xvmaxi.wu", "xvmini.bu", "xvmini.du", "xvmini.hu", "xvmini.wu", "xvrotri.w", "xvsat.w",
     "xvsat.wu", "xvslei.bu", "xvslei.du", "xvslei.hu", "xvslei.wu", "xvslli.w", "xvsllwil.d.w", "xvsllwil.du.wu", "xvslti.bu", "xvslti.du", "xvslti.hu",
     "xvslti.wu", "xvsrai.w", "xvsrani.h.w", "xvsrari.w", "xvsrarni.h.w", "xvsrli.w", "xvsrlni.h.w", "xvsrlri.w", "xvsrlrni.h.w", "xvssrani.h.w",
     "xvssrani.hu.w", "xvssrarni.h.w", "xvssrarni.hu.w", "xvssrlni.h.w", "xvssrlni.hu.w", "xvssrlrni.h.w", "xvssrlrni.hu.w", "xvsubi.bu", "xvsubi.du",
     "xvsubi.hu", "xvsubi.wu"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>>>,
     {"vext2xv.d.b", "vext2xv.d.h", "vext2xv.d.w", "vext2xv.du.bu", "vext2xv.du.hu", "vext2xv.du.wu", "vext2xv.h.b", "vext2xv.hu.bu", "vext2xv.w.b",
     "vext2xv.w.h", "vext2xv.wu.bu", "vext2xv.wu.hu", "xvclo.b", "xvclo.d", "xvclo.h", "xvclo.w", "xvclz.b", "xvclz.d", "xvclz.h", "xvclz.w", "xvexth.d.w",
     "xvexth.du.wu", "xvexth.h.b", "xvexth.hu.bu", "xvexth.q.d", "xvexth.qu.du", "xvexth.w.h", "xvexth.wu.hu", "xvextl.q.d", "xvextl.qu.du", "xvfclass.d",
     "xvfclass.s", "xvfcvth.d.s", "xvfcvth.s.h", "xvfcvtl.d.s", "xvfcvtl.s.h", "xvffint.d.l", "xvffint.d.lu", "xvffint.s.w", "xvffint.s.wu",
     "xvffinth.d.w", "xvffintl.d.w", "xvflogb.d", "xvflogb.s", "xvfrecip.d", "xvfrecip.s", "xvfrecipe.d", "xvfrecipe.s", "xvfrint.d", "xvfrint.s",
     "xvfrintrm.d", "xvfrintrm.s", "xvfrintrne.d", "xvfrintrne.s", "xvfrintrp.d", "xvfrintrp.s", "xvfrintrz.d", "xvfrintrz.s", "xvfrsqrt.d", "xvfrsqrt.s",
     "xvfrsqrte.d", "xvfrsqrte.s", "xvfsqrt.d", "xvfsqrt.s", "xvftint.l.d", "xvftint.lu.d", "xvftint.w.s", "xvftint.wu.s", "xvftinth.l.s", "xvftintl.l.s",
     "xvftintrm.l.d", "xvftintrm.w.s", "xvftintrmh.l.s", "xvftintrml.l.s", "xvftintrne.l.d", "xvftintrne.w.s", "xvftintrneh.l.s", "xvftintrnel.l.s",
     "xvftintrp.l.d", "xvftintrp.w.s", "xvftintrph.l.s", "xvftintrpl.l.s", "xvftintrz.l.d", "xvftintrz.lu.d", "xvftintrz.w.s", "xvftintrz.wu.s",
     "xvftintrzh.l.s", "xvftintrzl.l.s", "xvmskgez.b", "xvmskltz.b", "xvmskltz.d", "xvmskltz.h", "xvmskltz.w", "xvmsknz.b", "xvneg.b", "xvneg.d",
     "xvneg.h", "xvneg.w", "xvpcnt.b", "xvpcnt.d", "xvpcnt.h", "xvpcnt.w", "xvreplve0.b", "xvreplve0.d", "xvreplve0.h", "xvreplve0.q", "xvreplve0.w"}>>,
  <<<<<<"c", 0, 3, 0, 0>>, <<"x", 5, 5, 0, 0>>>>,
     {"xvsetallnez.b", "xvsetallnez.d", "xvsetallnez.h", "xvsetallnez.w", "xvsetanyeqz.b", "xvsetanyeqz.d", "xvsetanyeqz.h", "xvsetanyeqz.w", "xvseteqz.v",
     "xvsetnez.v"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>>>,
     {"xvreplgr2vr.b", "xvreplgr2vr.d", "xvreplgr2vr.h", "xvreplgr2vr.w"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 3, 0, 0>>>>,
     {"xvbitclri.b", "xvbitrevi.b", "xvbitseti.b", "xvinsve0.w", "xvpickve.w", "xvrepl128vei.h", "xvrotri.b", "xvsat.b", "xvsat.bu", "xvslli.b",
     "xvsllwil.h.b", "xvsllwil.hu.bu", "xvsrai.b", "xvsrari.b", "xvsrli.b", "xvsrlri.b"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 4, 0, 0>>>>,
     {"xvbitclri.h", "xvbitrevi.h", "xvbitseti.h", "xvrepl128vei.b", "xvrotri.h", "xvsat.h", "xvsat.hu", "xvslli.h", "xvsllwil.w.h", "xvsllwil.wu.hu",
     "xvsrai.h", "xvsrani.b.h", "xvsrari.h", "xvsrarni.b.h", "xvsrli.h", "xvsrlni.b.h", "xvsrlri.h", "xvsrlrni.b.h", "xvssrani.b.h", "xvssrani.bu.h",
     "xvssrarni.b.h", "xvssrarni.bu.h", "xvssrlni.b.h", "xvssrlni.bu.h", "xvssrlrni.b.h", "xvssrlrni.bu.h"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 6, 0, 0>>>>,
     {"xvbitclri.d", "xvbitrevi.d", "xvbitseti.d", "xvrotri.d", "xvsat.d", "xvsat.du", "xvslli.d", "xvsrai.d", "xvsrani.w.d", "xvsrari.d", "xvsrarni.w.d",
     "xvsrli.d", "xvsrlni.w.d", "xvsrlri.d", "xvsrlrni.w.d", "xvssrani.w.d", "xvssrani.wu.d", "xvssrarni.w.d", "xvssrarni.wu.d", "xvssrlni.w.d",
     "xvssrlni.wu.d", "xvssrlrni.w.d", "xvssrlrni.wu.d"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 3, 0, 0>>>>,
     {"xvinsgr2vr.w"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"r", 5, 5, 0, 0>>, <<"u", 10, 2, 0, 0>>>>,
     {"xvinsgr2vr.d"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 3, 0, 0>>>>,
     {"xvpickve2gr.w", "xvpickve2gr.wu"}>>,
  <<<<<<"r", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 2, 0, 0>>>>,
     {"xvpickve2gr.d", "xvpickve2gr.du"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 2, 0, 0>>>>,
     {"xvinsve0.d", "xvpickve.d", "xvrepl128vei.w"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 1, 0, 0>>>>,
     {"xvrepl128vei.d"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 7, 0, 0>>>>,
     {"xvsrani.d.q", "xvsrarni.d.q", "xvsrlni.d.q", "xvsrlrni.d.q", "xvssrani.d.q", "xvssrani.du.q", "xvssrarni.d.q", "xvssrarni.du.q", "xvssrlni.d.q",
     "xvssrlni.du.q", "xvssrlrni.d.q", "xvssrlrni.du.q"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"x", 5, 5, 0, 0>>, <<"u", 10, 8, 0, 0>>>>,
     {"xvandi.b", "xvbitseli.b", "xvextrins.b", "xvextrins.d", "xvextrins.h", "xvextrins.w", "xvnori.b", "xvori.b", "xvpermi.d", "xvpermi.q", "xvpermi.w",
     "xvshuf4i.b", "xvshuf4i.d", "xvshuf4i.h", "xvshuf4i.w", "xvxori.b"}>>,
  <<<<<<"x", 0, 5, 0, 0>>, <<"s", 5, 13, 0, 0>>>>,
     {"xvldi"}>>
>>
Placed == UNION {Layouts[i][2] : i \in DOMAIN Layouts}
LayoutOf(n) == LET i == CHOOSE i \in DOMAIN Layouts : n \in Layouts[i][2] IN Layouts[i][1]
Pow2(k) == 2^k
Field(w, at, wd) == \* wd <= 22
  IF at >= 10 THEN (w[1] \div Pow2(at - 10)) % Pow2(wd)
  ELSE IF at + wd <= 10 THEN (w[2] \div Pow2(at)) % Pow2(wd)
  ELSE (w[1] % Pow2(at + wd - 10)) * Pow2(10 - at) + w[2] \div Pow2(at)
Signed(v, wd) == IF v >= Pow2(wd - 1) THEN v - Pow2(wd) ELSE v
Operand(f, w) ==
  CASE f[1] = "b21" -> <<"n", 4 * Signed((w[2] % 32) * 65536 + (w[1] % 65536), 21)>>
    [] f[1] = "b26" -> <<"n", 4 * Signed(w[2] * 65536 + (w[1] % 65536), 26)>>
    [] f[1] = "u" -> <<"n", Field(w, f[2], f[3]) * Pow2(f[4]) + f[5]>>
    [] f[1] = "s" -> <<"n", Signed(Field(w, f[2], f[3]), f[3]) * Pow2(f[4])>>
    [] OTHER -> <<f[1], Field(w, f[2], f[3])>>
Operands(n, w) == LET fs == LayoutOf(n) IN [i \in 1..Len(fs) |-> Operand(fs[i], w)]
Z == <<"r", 0>>
\* the words' other names in assembly
Aliases(n, o) ==
     (IF n = "andi" /\ o[1] = Z THEN {<<"nop", <<>>>>} ELSE {})
\cup (IF n = "or" /\ o[3] = Z THEN {<<"move", <<o[1], o[2]>>>>} ELSE {})
\cup (IF n \in {"ori", "addi.w"} /\ o[2] = Z THEN {<<"li.w", <<o[1], o[3]>>>>} ELSE {})
\cup (IF n \in {"ori", "addi.d"} /\ o[2] = Z THEN {<<"li.d", <<o[1], o[3]>>>>} ELSE {})
\cup (IF n = "jirl" /\ o = <<Z, <<"r", 1>>, <<"n", 0>>>> THEN {<<"ret", <<>>>>} ELSE {})
\cup (IF n = "jirl" /\ o[1] = Z /\ o[3] = <<"n", 0>> THEN {<<"jr", <<o[2]>>>>} ELSE {})
\cup (IF n = "blt" /\ o[2] = Z THEN {<<"bltz", <<o[1], o[3]>>>>} ELSE {})
\cup (IF n = "blt" /\ o[1] = Z THEN {<<"bgtz", <<o[2], o[3]>>>>} ELSE {})
\cup (IF n = "bge" /\ o[2] = Z THEN {<<"bgez", <<o[1], o[3]>>>>} ELSE {})
\cup (IF n = "bge" /\ o[1] = Z THEN {<<"blez", <<o[2], o[3]>>>>} ELSE {})
\* the prefix of BCEQZ is also that of BCNEZ: bits 8 and 9 decide
NameOf(w) == IF IsaName(w[1]) = "bceqz" THEN CASE w[2] \div 256 = 0 -> "bceqz" [] w[2] \div 256 = 1 -> "bcnez" [] OTHER -> "reserved" ELSE IsaName(w[1])
Texts(n, w) == LET o == Operands(n, w) IN {<<n, o>>} \cup Aliases(n, o)
\* the address an instruction at pc refers to, when its operands alone decide it
Relative == {"b", "bl", "beq", "bne", "blt", "bge", "bltu", "bgeu", "beqz", "bnez", "bceqz", "bcnez", "pcaddi", "pcaddu12i", "pcaddu18i", "pcalau12i"}
Refers(n, w, pc) ==
  LET o == Operands(n, w)  i == OfInt(o[Len(o)][2])
  IN CASE n = "pcaddi" -> Add(pc, Shl(i, 2))
       [] n = "pcaddu12i" -> Add(pc, Shl(i, 12))
       [] n = "pcaddu18i" -> Add(pc, Shl(i, 18))
       [] n = "pcalau12i" -> Add(BAnd(pc, Shl(Ones, 12)), Shl(i, 12))
       [] OTHER -> Add(pc, i)
=============================================================================

-------------------------------- MODULE Isa --------------------------------
(* The instruction words of LoongArch64 with its floating-point, LSX, LASX,  *)
(* virtualisation and binary translation extensions: the upper 22 bits of a  *)
(* word decide its mnemonic.  Each entry <<lo, hi, name>> assigns a range of *)
(* those 22 bits; what no entry covers is reserved.  The table was produced  *)
(* by disassembling all 2^22 prefixes with LLVM 18 (llvm-mc), which shares   *)
(* nothing with the emulator; the semantics do not depend on it.             *)
EXTENDS Integers, Sequences
IsaTable == <<
  <<2,2,"movgr2scr">>, <<3,3,"movscr2gr">>, <<4,4,"clo.w">>, <<5,5,"clz.w">>, <<6,6,"cto.w">>, <<7,7,"ctz.w">>, <<8,8,"clo.d">>, <<9,9,"clz.d">>,
  <<10,10,"cto.d">>, <<11,11,"ctz.d">>, <<12,12,"revb.2h">>, <<13,13,"revb.4h">>, <<14,14,"revb.2w">>, <<15,15,"revb.d">>, <<16,16,"revh.2w">>,
  <<17,17,"revh.d">>, <<18,18,"bitrev.4b">>, <<19,19,"bitrev.8b">>, <<20,20,"bitrev.w">>, <<21,21,"bitrev.d">>, <<22,22,"ext.w.h">>,
  <<23,23,"ext.w.b">>, <<24,24,"rdtimel.w">>, <<25,25,"rdtimeh.w">>, <<26,26,"rdtime.d">>, <<27,27,"cpucfg">>, <<30,30,"setx86loope">>,
  <<31,31,"setx86loopne">>, <<32,32,"x86inc.h">>, <<256,383,"alsl.w">>, <<384,511,"alsl.wu">>, <<512,639,"bytepick.w">>, <<768,1023,"bytepick.d">>,
  <<1024,1055,"add.w">>, <<1056,1087,"add.d">>, <<1088,1119,"sub.w">>, <<1120,1151,"sub.d">>, <<1152,1183,"slt">>, <<1184,1215,"sltu">>,
  <<1216,1247,"maskeqz">>, <<1248,1279,"masknez">>, <<1280,1311,"nor">>, <<1312,1343,"and">>, <<1344,1375,"or">>, <<1376,1407,"xor">>,
  <<1408,1439,"orn">>, <<1440,1471,"andn">>, <<1472,1503,"sll.w">>, <<1504,1535,"srl.w">>, <<1536,1567,"sra.w">>, <<1568,1599,"sll.d">>,
  <<1600,1631,"srl.d">>, <<1632,1663,"sra.d">>, <<1664,1695,"rotr.b">>, <<1696,1727,"rotr.h">>, <<1728,1759,"rotr.w">>, <<1760,1791,"rotr.d">>,
  <<1792,1823,"mul.w">>, <<1824,1855,"mulh.w">>, <<1856,1887,"mulh.wu">>, <<1888,1919,"mul.d">>, <<1920,1951,"mulh.d">>, <<1952,1983,"mulh.du">>,
  <<1984,2015,"mulw.d.w">>, <<2016,2047,"mulw.d.wu">>, <<2048,2079,"div.w">>, <<2080,2111,"mod.w">>, <<2112,2143,"div.wu">>, <<2144,2175,"mod.wu">>,
  <<2176,2207,"div.d">>, <<2208,2239,"mod.d">>, <<2240,2271,"div.du">>, <<2272,2303,"mod.du">>, <<2304,2335,"crc.w.b.w">>, <<2336,2367,"crc.w.h.w">>,
  <<2368,2399,"crc.w.w.w">>, <<2400,2431,"crc.w.d.w">>, <<2432,2463,"crcc.w.b.w">>, <<2464,2495,"crcc.w.h.w">>, <<2496,2527,"crcc.w.w.w">>,
  <<2528,2559,"crcc.w.d.w">>, <<2624,2655,"addu12i.w">>, <<2656,2687,"addu12i.d">>, <<2688,2719,"break">>, <<2720,2751,"dbcl">>,
  <<2752,2783,"syscall">>, <<2784,2815,"hvcl">>, <<2816,2943,"alsl.d">>, <<3072,3103,"adc.b">>, <<3104,3135,"adc.h">>, <<3136,3167,"adc.w">>,
  <<3168,3199,"adc.d">>, <<3200,3231,"sbc.b">>, <<3232,3263,"sbc.h">>, <<3264,3295,"sbc.w">>, <<3296,3327,"sbc.d">>, <<3328,3359,"rcr.b">>,
  <<3360,3391,"rcr.h">>, <<3392,3423,"rcr.w">>, <<3424,3455,"rcr.d">>, <<3472,3487,"armmove">>, <<4000,4031,"x86mul.h">>, <<4032,4063,"x86add.du">>,
  <<4064,4095,"x86rotr.h">>, <<4128,4159,"slli.w">>, <<4160,4223,"slli.d">>, <<4384,4415,"srli.w">>, <<4416,4479,"srli.d">>, <<4640,4671,"srai.w">>,
  <<4672,4735,"srai.d">>, <<4872,4879,"rotri.b">>, <<4880,4895,"rotri.h">>, <<4896,4927,"rotri.w">>, <<4928,4991,"rotri.d">>, <<5128,5135,"rcri.b">>,
  <<5136,5151,"rcri.h">>, <<5152,5183,"rcri.w">>, <<5184,5247,"rcri.d">>, <<5392,5407,"x86slli.h">>, <<5632,5887,"x86settag">>,
  <<5888,6143,"armmfflag">>, <<6144,6175,"bstrins.w">>, <<6176,6207,"bstrpick.w">>, <<6208,6239,"bstrins.w">>, <<6240,6271,"bstrpick.w">>,
  <<6272,6303,"bstrins.w">>, <<6304,6335,"bstrpick.w">>, <<6336,6367,"bstrins.w">>, <<6368,6399,"bstrpick.w">>, <<6400,6431,"bstrins.w">>,
  <<6432,6463,"bstrpick.w">>, <<6464,6495,"bstrins.w">>, <<6496,6527,"bstrpick.w">>, <<6528,6559,"bstrins.w">>, <<6560,6591,"bstrpick.w">>,
  <<6592,6623,"bstrins.w">>, <<6624,6655,"bstrpick.w">>, <<6656,6687,"bstrins.w">>, <<6688,6719,"bstrpick.w">>, <<6720,6751,"bstrins.w">>,
  <<6752,6783,"bstrpick.w">>, <<6784,6815,"bstrins.w">>, <<6816,6847,"bstrpick.w">>, <<6848,6879,"bstrins.w">>, <<6880,6911,"bstrpick.w">>,
  <<6912,6943,"bstrins.w">>, <<6944,6975,"bstrpick.w">>, <<6976,7007,"bstrins.w">>, <<7008,7039,"bstrpick.w">>, <<7040,7071,"bstrins.w">>,
  <<7072,7103,"bstrpick.w">>, <<7104,7135,"bstrins.w">>, <<7136,7167,"bstrpick.w">>, <<7168,7199,"bstrins.w">>, <<7200,7231,"bstrpick.w">>,
  <<7232,7263,"bstrins.w">>, <<7264,7295,"bstrpick.w">>, <<7296,7327,"bstrins.w">>, <<7328,7359,"bstrpick.w">>, <<7360,7391,"bstrins.w">>,
  <<7392,7423,"bstrpick.w">>, <<7424,7455,"bstrins.w">>, <<7456,7487,"bstrpick.w">>, <<7488,7519,"bstrins.w">>, <<7520,7551,"bstrpick.w">>,
  <<7552,7583,"bstrins.w">>, <<7584,7615,"bstrpick.w">>, <<7616,7647,"bstrins.w">>, <<7648,7679,"bstrpick.w">>, <<7680,7711,"bstrins.w">>,
  <<7712,7743,"bstrpick.w">>, <<7744,7775,"bstrins.w">>, <<7776,7807,"bstrpick.w">>, <<7808,7839,"bstrins.w">>, <<7840,7871,"bstrpick.w">>,
  <<7872,7903,"bstrins.w">>, <<7904,7935,"bstrpick.w">>, <<7936,7967,"bstrins.w">>, <<7968,7999,"bstrpick.w">>, <<8000,8031,"bstrins.w">>,
  <<8032,8063,"bstrpick.w">>, <<8064,8095,"bstrins.w">>, <<8096,8127,"bstrpick.w">>, <<8128,8159,"bstrins.w">>, <<8160,8191,"bstrpick.w">>,
  <<8192,12287,"bstrins.d">>, <<12288,16383,"bstrpick.d">>, <<16416,16447,"fadd.s">>, <<16448,16479,"fadd.d">>, <<16544,16575,"fsub.s">>,
  <<16576,16607,"fsub.d">>, <<16672,16703,"fmul.s">>, <<16704,16735,"fmul.d">>, <<16800,16831,"fdiv.s">>, <<16832,16863,"fdiv.d">>,
  <<16928,16959,"fmax.s">>, <<16960,16991,"fmax.d">>, <<17056,17087,"fmin.s">>, <<17088,17119,"fmin.d">>, <<17184,17215,"fmaxa.s">>,
  <<17216,17247,"fmaxa.d">>, <<17312,17343,"fmina.s">>, <<17344,17375,"fmina.d">>, <<17440,17471,"fscaleb.s">>, <<17472,17503,"fscaleb.d">>,
  <<17568,17599,"fcopysign.s">>, <<17600,17631,"fcopysign.d">>, <<17665,17665,"fabs.s">>, <<17666,17666,"fabs.d">>, <<17669,17669,"fneg.s">>,
  <<17670,17670,"fneg.d">>, <<17673,17673,"flogb.s">>, <<17674,17674,"flogb.d">>, <<17677,17677,"fclass.s">>, <<17678,17678,"fclass.d">>,
  <<17681,17681,"fsqrt.s">>, <<17682,17682,"fsqrt.d">>, <<17685,17685,"frecip.s">>, <<17686,17686,"frecip.d">>, <<17689,17689,"frsqrt.s">>,
  <<17690,17690,"frsqrt.d">>, <<17693,17693,"frecipe.s">>, <<17694,17694,"frecipe.d">>, <<17697,17697,"frsqrte.s">>, <<17698,17698,"frsqrte.d">>,
  <<17701,17701,"fmov.s">>, <<17702,17702,"fmov.d">>, <<17705,17705,"movgr2fr.w">>, <<17706,17706,"movgr2fr.d">>, <<17707,17707,"movgr2frh.w">>,
  <<17709,17709,"movfr2gr.s">>, <<17710,17710,"movfr2gr.d">>, <<17711,17711,"movfrh2gr.s">>, <<17712,17712,"movgr2fcsr">>,
  <<17714,17714,"movfcsr2gr">>, <<17716,17716,"movfr2cf">>, <<17717,17717,"movcf2fr">>, <<17718,17718,"movgr2cf">>, <<17719,17719,"movcf2gr">>,
  <<17720,17720,"fcvt.ld.d">>, <<17721,17721,"fcvt.ud.d">>, <<17728,17759,"fcvt.d.ld">>, <<17990,17990,"fcvt.s.d">>, <<17993,17993,"fcvt.d.s">>,
  <<18049,18049,"ftintrm.w.s">>, <<18050,18050,"ftintrm.w.d">>, <<18057,18057,"ftintrm.l.s">>, <<18058,18058,"ftintrm.l.d">>,
  <<18065,18065,"ftintrp.w.s">>, <<18066,18066,"ftintrp.w.d">>, <<18073,18073,"ftintrp.l.s">>, <<18074,18074,"ftintrp.l.d">>,
  <<18081,18081,"ftintrz.w.s">>, <<18082,18082,"ftintrz.w.d">>, <<18089,18089,"ftintrz.l.s">>, <<18090,18090,"ftintrz.l.d">>,
  <<18097,18097,"ftintrne.w.s">>, <<18098,18098,"ftintrne.w.d">>, <<18105,18105,"ftintrne.l.s">>, <<18106,18106,"ftintrne.l.d">>,
  <<18113,18113,"ftint.w.s">>, <<18114,18114,"ftint.w.d">>, <<18121,18121,"ftint.l.s">>, <<18122,18122,"ftint.l.d">>, <<18244,18244,"ffint.s.w">>,
  <<18246,18246,"ffint.s.l">>, <<18248,18248,"ffint.d.w">>, <<18250,18250,"ffint.d.l">>, <<18321,18321,"frint.s">>, <<18322,18322,"frint.d">>,
  <<32768,36863,"slti">>, <<36864,40959,"sltui">>, <<40960,45055,"addi.w">>, <<45056,49151,"addi.d">>, <<49152,53247,"lu52i.d">>,
  <<53248,57343,"andi">>, <<57344,61439,"ori">>, <<61440,65535,"xori">>, <<65536,81919,"csrxchg">>, <<81920,98303,"gcsrxchg">>,
  <<98304,102399,"cacop">>, <<102400,102655,"lddir">>, <<102912,102912,"iocsrrd.b">>, <<102913,102913,"iocsrrd.h">>, <<102914,102914,"iocsrrd.w">>,
  <<102915,102915,"iocsrrd.d">>, <<102916,102916,"iocsrwr.b">>, <<102917,102917,"iocsrwr.h">>, <<102918,102918,"iocsrwr.w">>,
  <<102919,102919,"iocsrwr.d">>, <<102944,102975,"idle">>, <<103008,103039,"invtlb">>, <<132096,133119,"fmadd.s">>, <<133120,134143,"fmadd.d">>,
  <<136192,137215,"fmsub.s">>, <<137216,138239,"fmsub.d">>, <<140288,141311,"fnmadd.s">>, <<141312,142335,"fnmadd.d">>, <<144384,145407,"fnmsub.s">>,
  <<145408,146431,"fnmsub.d">>, <<148480,149503,"vfmadd.s">>, <<149504,150527,"vfmadd.d">>, <<152576,153599,"vfmsub.s">>,
  <<153600,154623,"vfmsub.d">>, <<156672,157695,"vfnmadd.s">>, <<157696,158719,"vfnmadd.d">>, <<160768,161791,"vfnmsub.s">>,
  <<161792,162815,"vfnmsub.d">>, <<164864,165887,"xvfmadd.s">>, <<165888,166911,"xvfmadd.d">>, <<168960,169983,"xvfmsub.s">>,
  <<169984,171007,"xvfmsub.d">>, <<173056,174079,"xvfnmadd.s">>, <<174080,175103,"xvfnmadd.d">>, <<177152,178175,"xvfnmsub.s">>,
  <<178176,179199,"xvfnmsub.d">>, <<197632,197663,"fcmp.caf.s">>, <<197664,197695,"fcmp.saf.s">>, <<197696,197727,"fcmp.clt.s">>,
  <<197728,197759,"fcmp.slt.s">>, <<197760,197791,"fcmp.ceq.s">>, <<197792,197823,"fcmp.seq.s">>, <<197824,197855,"fcmp.cle.s">>,
  <<197856,197887,"fcmp.sle.s">>, <<197888,197919,"fcmp.cun.s">>, <<197920,197951,"fcmp.sun.s">>, <<197952,197983,"fcmp.cult.s">>,
  <<197984,198015,"fcmp.sult.s">>, <<198016,198047,"fcmp.cueq.s">>, <<198048,198079,"fcmp.sueq.s">>, <<198080,198111,"fcmp.cule.s">>,
  <<198112,198143,"fcmp.sule.s">>, <<198144,198175,"fcmp.cne.s">>, <<198176,198207,"fcmp.sne.s">>, <<198272,198303,"fcmp.cor.s">>,
  <<198304,198335,"fcmp.sor.s">>, <<198400,198431,"fcmp.cune.s">>, <<198432,198463,"fcmp.sune.s">>, <<198656,198687,"fcmp.caf.d">>,
  <<198688,198719,"fcmp.saf.d">>, <<198720,198751,"fcmp.clt.d">>, <<198752,198783,"fcmp.slt.d">>, <<198784,198815,"fcmp.ceq.d">>,
  <<198816,198847,"fcmp.seq.d">>, <<198848,198879,"fcmp.cle.d">>, <<198880,198911,"fcmp.sle.d">>, <<198912,198943,"fcmp.cun.d">>,
  <<198944,198975,"fcmp.sun.d">>, <<198976,199007,"fcmp.cult.d">>, <<199008,199039,"fcmp.sult.d">>, <<199040,199071,"fcmp.cueq.d">>,
  <<199072,199103,"fcmp.sueq.d">>, <<199104,199135,"fcmp.cule.d">>, <<199136,199167,"fcmp.sule.d">>, <<199168,199199,"fcmp.cne.d">>,
  <<199200,199231,"fcmp.sne.d">>, <<199296,199327,"fcmp.cor.d">>, <<199328,199359,"fcmp.sor.d">>, <<199424,199455,"fcmp.cune.d">>,
  <<199456,199487,"fcmp.sune.d">>, <<201728,201759,"vfcmp.caf.s">>, <<201760,201791,"vfcmp.saf.s">>, <<201792,201823,"vfcmp.clt.s">>,
  <<201824,201855,"vfcmp.slt.s">>, <<201856,201887,"vfcmp.ceq.s">>, <<201888,201919,"vfcmp.seq.s">>, <<201920,201951,"vfcmp.cle.s">>,
  <<201952,201983,"vfcmp.sle.s">>, <<201984,202015,"vfcmp.cun.s">>, <<202016,202047,"vfcmp.sun.s">>, <<202048,202079,"vfcmp.cult.s">>,
  <<202080,202111,"vfcmp.sult.s">>, <<202112,202143,"vfcmp.cueq.s">>, <<202144,202175,"vfcmp.sueq.s">>, <<202176,202207,"vfcmp.cule.s">>,
  <<202208,202239,"vfcmp.sule.s">>, <<202240,202271,"vfcmp.cne.s">>, <<202272,202303,"vfcmp.sne.s">>, <<202368,202399,"vfcmp.cor.s">>,
  <<202400,202431,"vfcmp.sor.s">>, <<202496,202527,"vfcmp.cune.s">>, <<202528,202559,"vfcmp.sune.s">>, <<202752,202783,"vfcmp.caf.d">>,
  <<202784,202815,"vfcmp.saf.d">>, <<202816,202847,"vfcmp.clt.d">>, <<202848,202879,"vfcmp.slt.d">>, <<202880,202911,"vfcmp.ceq.d">>,
  <<202912,202943,"vfcmp.seq.d">>, <<202944,202975,"vfcmp.cle.d">>, <<202976,203007,"vfcmp.sle.d">>, <<203008,203039,"vfcmp.cun.d">>,
  <<203040,203071,"vfcmp.sun.d">>, <<203072,203103,"vfcmp.cult.d">>, <<203104,203135,"vfcmp.sult.d">>, <<203136,203167,"vfcmp.cueq.d">>,
  <<203168,203199,"vfcmp.sueq.d">>, <<203200,203231,"vfcmp.cule.d">>, <<203232,203263,"vfcmp.sule.d">>, <<203264,203295,"vfcmp.cne.d">>,
  <<203296,203327,"vfcmp.sne.d">>, <<203392,203423,"vfcmp.cor.d">>, <<203424,203455,"vfcmp.sor.d">>, <<203520,203551,"vfcmp.cune.d">>,
  <<203552,203583,"vfcmp.sune.d">>, <<205824,205855,"xvfcmp.caf.s">>, <<205856,205887,"xvfcmp.saf.s">>, <<205888,205919,"xvfcmp.clt.s">>,
  <<205920,205951,"xvfcmp.slt.s">>, <<205952,205983,"xvfcmp.ceq.s">>, <<205984,206015,"xvfcmp.seq.s">>, <<206016,206047,"xvfcmp.cle.s">>,
  <<206048,206079,"xvfcmp.sle.s">>, <<206080,206111,"xvfcmp.cun.s">>, <<206112,206143,"xvfcmp.sun.s">>, <<206144,206175,"xvfcmp.cult.s">>,
  <<206176,206207,"xvfcmp.sult.s">>, <<206208,206239,"xvfcmp.cueq.s">>, <<206240,206271,"xvfcmp.sueq.s">>, <<206272,206303,"xvfcmp.cule.s">>,
  <<206304,206335,"xvfcmp.sule.s">>, <<206336,206367,"xvfcmp.cne.s">>, <<206368,206399,"xvfcmp.sne.s">>, <<206464,206495,"xvfcmp.cor.s">>,
  <<206496,206527,"xvfcmp.sor.s">>, <<206592,206623,"xvfcmp.cune.s">>, <<206624,206655,"xvfcmp.sune.s">>, <<206848,206879,"xvfcmp.caf.d">>,
  <<206880,206911,"xvfcmp.saf.d">>, <<206912,206943,"xvfcmp.clt.d">>, <<206944,206975,"xvfcmp.slt.d">>, <<206976,207007,"xvfcmp.ceq.d">>,
  <<207008,207039,"xvfcmp.seq.d">>, <<207040,207071,"xvfcmp.cle.d">>, <<207072,207103,"xvfcmp.sle.d">>, <<207104,207135,"xvfcmp.cun.d">>,
  <<207136,207167,"xvfcmp.sun.d">>, <<207168,207199,"xvfcmp.cult.d">>, <<207200,207231,"xvfcmp.sult.d">>, <<207232,207263,"xvfcmp.cueq.d">>,
  <<207264,207295,"xvfcmp.sueq.d">>, <<207296,207327,"xvfcmp.cule.d">>, <<207328,207359,"xvfcmp.sule.d">>, <<207360,207391,"xvfcmp.cne.d">>,
  <<207392,207423,"xvfcmp.sne.d">>, <<207488,207519,"xvfcmp.cor.d">>, <<207520,207551,"xvfcmp.sor.d">>, <<207616,207647,"xvfcmp.cune.d">>,
  <<207648,207679,"xvfcmp.sune.d">>, <<212992,213247,"fsel">>, <<214016,215039,"vbitsel.v">>, <<215040,216063,"xvbitsel.v">>,
  <<218112,219135,"vshuf.b">>, <<219136,220159,"xvshuf.b">>, <<262144,327679,"addu16i.d">>, <<327680,360447,"lu12i.w">>, <<360448,393215,"lu32i.d">>,
  <<393216,425983,"pcaddi">>, <<425984,458751,"pcalau12i">>, <<458752,491519,"pcaddu12i">>, <<491520,524287,"pcaddu18i">>, <<524288,540671,"ll.w">>,
  <<540672,557055,"sc.w">>, <<557056,573439,"ll.d">>, <<573440,589823,"sc.d">>, <<589824,606207,"ldptr.w">>, <<606208,622591,"stptr.w">>,
  <<622592,638975,"ldptr.d">>, <<638976,655359,"stptr.d">>, <<655360,659455,"ld.b">>, <<659456,663551,"ld.h">>, <<663552,667647,"ld.w">>,
  <<667648,671743,"ld.d">>, <<671744,675839,"st.b">>, <<675840,679935,"st.h">>, <<679936,684031,"st.w">>, <<684032,688127,"st.d">>,
  <<688128,692223,"ld.bu">>, <<692224,696319,"ld.hu">>, <<696320,700415,"ld.wu">>, <<700416,704511,"preld">>, <<704512,708607,"fld.s">>,
  <<708608,712703,"fst.s">>, <<712704,716799,"fld.d">>, <<716800,720895,"fst.d">>, <<720896,724991,"vld">>, <<724992,729087,"vst">>,
  <<729088,733183,"xvld">>, <<733184,737279,"xvst">>, <<753664,757759,"ldl.w">>, <<757760,761855,"ldr.w">>, <<761856,765951,"ldl.d">>,
  <<765952,770047,"ldr.d">>, <<770048,774143,"stl.w">>, <<774144,778239,"str.w">>, <<778240,782335,"stl.d">>, <<782336,786431,"str.d">>,
  <<787456,787967,"vldrepl.d">>, <<788480,789503,"vldrepl.w">>, <<790528,792575,"vldrepl.h">>, <<794624,798719,"vldrepl.b">>,
  <<803840,804351,"vstelm.d">>, <<804864,805887,"vstelm.w">>, <<806912,808959,"vstelm.h">>, <<811008,815103,"vstelm.b">>,
  <<820224,820735,"xvldrepl.d">>, <<821248,822271,"xvldrepl.w">>, <<823296,825343,"xvldrepl.h">>, <<827392,831487,"xvldrepl.b">>,
  <<836608,837631,"xvstelm.d">>, <<837632,839679,"xvstelm.w">>, <<839680,843775,"xvstelm.h">>, <<843776,851967,"xvstelm.b">>,
  <<917504,917535,"ldx.b">>, <<917760,917791,"ldx.h">>, <<918016,918047,"ldx.w">>, <<918272,918303,"ldx.d">>, <<918528,918559,"stx.b">>,
  <<918784,918815,"stx.h">>, <<919040,919071,"stx.w">>, <<919296,919327,"stx.d">>, <<919552,919583,"ldx.bu">>, <<919808,919839,"ldx.hu">>,
  <<920064,920095,"ldx.wu">>, <<920320,920351,"preldx">>, <<920576,920607,"fldx.s">>, <<920832,920863,"fldx.d">>, <<921088,921119,"fstx.s">>,
  <<921344,921375,"fstx.d">>, <<921600,921631,"vldx">>, <<921856,921887,"vstx">>, <<922112,922143,"xvldx">>, <<922368,922399,"xvstx">>,
  <<923072,923103,"sc.q">>, <<923104,923104,"llacq.w">>, <<923105,923105,"screl.w">>, <<923106,923106,"llacq.d">>, <<923107,923107,"screl.d">>,
  <<923136,923167,"amcas.b">>, <<923168,923199,"amcas.h">>, <<923200,923231,"amcas.w">>, <<923232,923263,"amcas.d">>, <<923264,923295,"amcas_db.b">>,
  <<923296,923327,"amcas_db.h">>, <<923328,923359,"amcas_db.w">>, <<923360,923391,"amcas_db.d">>, <<923392,923423,"amswap.b">>,
  <<923424,923455,"amswap.h">>, <<923456,923487,"amadd.b">>, <<923488,923519,"amadd.h">>, <<923520,923551,"amswap_db.b">>,
  <<923552,923583,"amswap_db.h">>, <<923584,923615,"amadd_db.b">>, <<923616,923647,"amadd_db.h">>, <<923648,923679,"amswap.w">>,
  <<923680,923711,"amswap.d">>, <<923712,923743,"amadd.w">>, <<923744,923775,"amadd.d">>, <<923776,923807,"amand.w">>, <<923808,923839,"amand.d">>,
  <<923840,923871,"amor.w">>, <<923872,923903,"amor.d">>, <<923904,923935,"amxor.w">>, <<923936,923967,"amxor.d">>, <<923968,923999,"ammax.w">>,
  <<924000,924031,"ammax.d">>, <<924032,924063,"ammin.w">>, <<924064,924095,"ammin.d">>, <<924096,924127,"ammax.wu">>, <<924128,924159,"ammax.du">>,
  <<924160,924191,"ammin.wu">>, <<924192,924223,"ammin.du">>, <<924224,924255,"amswap_db.w">>, <<924256,924287,"amswap_db.d">>,
  <<924288,924319,"amadd_db.w">>, <<924320,924351,"amadd_db.d">>, <<924352,924383,"amand_db.w">>, <<924384,924415,"amand_db.d">>,
  <<924416,924447,"amor_db.w">>, <<924448,924479,"amor_db.d">>, <<924480,924511,"amxor_db.w">>, <<924512,924543,"amxor_db.d">>,
  <<924544,924575,"ammax_db.w">>, <<924576,924607,"ammax_db.d">>, <<924608,924639,"ammin_db.w">>, <<924640,924671,"ammin_db.d">>,
  <<924672,924703,"ammax_db.wu">>, <<924704,924735,"ammax_db.du">>, <<924736,924767,"ammin_db.wu">>, <<924768,924799,"ammin_db.du">>,
  <<924800,924831,"dbar">>, <<924832,924863,"ibar">>, <<924928,924959,"fldgt.s">>, <<924960,924991,"fldgt.d">>, <<924992,925023,"fldle.s">>,
  <<925024,925055,"fldle.d">>, <<925056,925087,"fstgt.s">>, <<925088,925119,"fstgt.d">>, <<925120,925151,"fstle.s">>, <<925152,925183,"fstle.d">>,
  <<925184,925215,"ldgt.b">>, <<925216,925247,"ldgt.h">>, <<925248,925279,"ldgt.w">>, <<925280,925311,"ldgt.d">>, <<925312,925343,"ldle.b">>,
  <<925344,925375,"ldle.h">>, <<925376,925407,"ldle.w">>, <<925408,925439,"ldle.d">>, <<925440,925471,"stgt.b">>, <<925472,925503,"stgt.h">>,
  <<925504,925535,"stgt.w">>, <<925536,925567,"stgt.d">>, <<925568,925599,"stle.b">>, <<925600,925631,"stle.h">>, <<925632,925663,"stle.w">>,
  <<925664,925695,"stle.d">>, <<1048576,1114111,"beqz">>, <<1114112,1179647,"bnez">>, <<1179648,1245183,"bceqz">>, <<1245184,1310719,"jirl">>,
  <<1310720,1376255,"b">>, <<1376256,1441791,"bl">>, <<1441792,1507327,"beq">>, <<1507328,1572863,"bne">>, <<1572864,1638399,"blt">>,
  <<1638400,1703935,"bge">>, <<1703936,1769471,"bltu">>, <<1769472,1835007,"bgeu">>, <<1835008,1835039,"vseq.b">>, <<1835040,1835071,"vseq.h">>,
  <<1835072,1835103,"vseq.w">>, <<1835104,1835135,"vseq.d">>, <<1835136,1835167,"vsle.b">>, <<1835168,1835199,"vsle.h">>,
  <<1835200,1835231,"vsle.w">>, <<1835232,1835263,"vsle.d">>, <<1835264,1835295,"vsle.bu">>, <<1835296,1835327,"vsle.hu">>,
  <<1835328,1835359,"vsle.wu">>, <<1835360,1835391,"vsle.du">>, <<1835392,1835423,"vslt.b">>, <<1835424,1835455,"vslt.h">>,
  <<1835456,1835487,"vslt.w">>, <<1835488,1835519,"vslt.d">>, <<1835520,1835551,"vslt.bu">>, <<1835552,1835583,"vslt.hu">>,
  <<1835584,1835615,"vslt.wu">>, <<1835616,1835647,"vslt.du">>, <<1835648,1835679,"vadd.b">>, <<1835680,1835711,"vadd.h">>,
  <<1835712,1835743,"vadd.w">>, <<1835744,1835775,"vadd.d">>, <<1835776,1835807,"vsub.b">>, <<1835808,1835839,"vsub.h">>,
  <<1835840,1835871,"vsub.w">>, <<1835872,1835903,"vsub.d">>, <<1836928,1836959,"vaddwev.h.b">>, <<1836960,1836991,"vaddwev.w.h">>,
  <<1836992,1837023,"vaddwev.d.w">>, <<1837024,1837055,"vaddwev.q.d">>, <<1837056,1837087,"vsubwev.h.b">>, <<1837088,1837119,"vsubwev.w.h">>,
  <<1837120,1837151,"vsubwev.d.w">>, <<1837152,1837183,"vsubwev.q.d">>, <<1837184,1837215,"vaddwod.h.b">>, <<1837216,1837247,"vaddwod.w.h">>,
  <<1837248,1837279,"vaddwod.d.w">>, <<1837280,1837311,"vaddwod.q.d">>, <<1837312,1837343,"vsubwod.h.b">>, <<1837344,1837375,"vsubwod.w.h">>,
  <<1837376,1837407,"vsubwod.d.w">>, <<1837408,1837439,"vsubwod.q.d">>, <<1837952,1837983,"vaddwev.h.bu">>, <<1837984,1838015,"vaddwev.w.hu">>,
  <<1838016,1838047,"vaddwev.d.wu">>, <<1838048,1838079,"vaddwev.q.du">>, <<1838080,1838111,"vsubwev.h.bu">>, <<1838112,1838143,"vsubwev.w.hu">>,
  <<1838144,1838175,"vsubwev.d.wu">>, <<1838176,1838207,"vsubwev.q.du">>, <<1838208,1838239,"vaddwod.h.bu">>, <<1838240,1838271,"vaddwod.w.hu">>,
  <<1838272,1838303,"vaddwod.d.wu">>, <<1838304,1838335,"vaddwod.q.du">>, <<1838336,1838367,"vsubwod.h.bu">>, <<1838368,1838399,"vsubwod.w.hu">>,
  <<1838400,1838431,"vsubwod.d.wu">>, <<1838432,1838463,"vsubwod.q.du">>, <<1838976,1839007,"vaddwev.h.bu.b">>, <<1839008,1839039,"vaddwev.w.hu.h">>,
  <<1839040,1839071,"vaddwev.d.wu.w">>, <<1839072,1839103,"vaddwev.q.du.d">>, <<1839104,1839135,"vaddwod.h.bu.b">>,
  <<1839136,1839167,"vaddwod.w.hu.h">>, <<1839168,1839199,"vaddwod.d.wu.w">>, <<1839200,1839231,"vaddwod.q.du.d">>, <<1839488,1839519,"vsadd.b">>,
  <<1839520,1839551,"vsadd.h">>, <<1839552,1839583,"vsadd.w">>, <<1839584,1839615,"vsadd.d">>, <<1839616,1839647,"vssub.b">>,
  <<1839648,1839679,"vssub.h">>, <<1839680,1839711,"vssub.w">>, <<1839712,1839743,"vssub.d">>, <<1839744,1839775,"vsadd.bu">>,
  <<1839776,1839807,"vsadd.hu">>, <<1839808,1839839,"vsadd.wu">>, <<1839840,1839871,"vsadd.du">>, <<1839872,1839903,"vssub.bu">>,
  <<1839904,1839935,"vssub.hu">>, <<1839936,1839967,"vssub.wu">>, <<1839968,1839999,"vssub.du">>, <<1840384,1840415,"vhaddw.h.b">>,
  <<1840416,1840447,"vhaddw.w.h">>, <<1840448,1840479,"vhaddw.d.w">>, <<1840480,1840511,"vhaddw.q.d">>, <<1840512,1840543,"vhsubw.h.b">>,
  <<1840544,1840575,"vhsubw.w.h">>, <<1840576,1840607,"vhsubw.d.w">>, <<1840608,1840639,"vhsubw.q.d">>, <<1840640,1840671,"vhaddw.hu.bu">>,
  <<1840672,1840703,"vhaddw.wu.hu">>, <<1840704,1840735,"vhaddw.du.wu">>, <<1840736,1840767,"vhaddw.qu.du">>, <<1840768,1840799,"vhsubw.hu.bu">>,
  <<1840800,1840831,"vhsubw.wu.hu">>, <<1840832,1840863,"vhsubw.du.wu">>, <<1840864,1840895,"vhsubw.qu.du">>, <<1840896,1840927,"vadda.b">>,
  <<1840928,1840959,"vadda.h">>, <<1840960,1840991,"vadda.w">>, <<1840992,1841023,"vadda.d">>, <<1841152,1841183,"vabsd.b">>,
  <<1841184,1841215,"vabsd.h">>, <<1841216,1841247,"vabsd.w">>, <<1841248,1841279,"vabsd.d">>, <<1841280,1841311,"vabsd.bu">>,
  <<1841312,1841343,"vabsd.hu">>, <<1841344,1841375,"vabsd.wu">>, <<1841376,1841407,"vabsd.du">>, <<1841408,1841439,"vavg.b">>,
  <<1841440,1841471,"vavg.h">>, <<1841472,1841503,"vavg.w">>, <<1841504,1841535,"vavg.d">>, <<1841536,1841567,"vavg.bu">>,
  <<1841568,1841599,"vavg.hu">>, <<1841600,1841631,"vavg.wu">>, <<1841632,1841663,"vavg.du">>, <<1841664,1841695,"vavgr.b">>,
  <<1841696,1841727,"vavgr.h">>, <<1841728,1841759,"vavgr.w">>, <<1841760,1841791,"vavgr.d">>, <<1841792,1841823,"vavgr.bu">>,
  <<1841824,1841855,"vavgr.hu">>, <<1841856,1841887,"vavgr.wu">>, <<1841888,1841919,"vavgr.du">>, <<1842176,1842207,"vmax.b">>,
  <<1842208,1842239,"vmax.h">>, <<1842240,1842271,"vmax.w">>, <<1842272,1842303,"vmax.d">>, <<1842304,1842335,"vmin.b">>,
  <<1842336,1842367,"vmin.h">>, <<1842368,1842399,"vmin.w">>, <<1842400,1842431,"vmin.d">>, <<1842432,1842463,"vmax.bu">>,
  <<1842464,1842495,"vmax.hu">>, <<1842496,1842527,"vmax.wu">>, <<1842528,1842559,"vmax.du">>, <<1842560,1842591,"vmin.bu">>,
  <<1842592,1842623,"vmin.hu">>, <<1842624,1842655,"vmin.wu">>, <<1842656,1842687,"vmin.du">>, <<1843456,1843487,"vmul.b">>,
  <<1843488,1843519,"vmul.h">>, <<1843520,1843551,"vmul.w">>, <<1843552,1843583,"vmul.d">>, <<1843584,1843615,"vmuh.b">>,
  <<1843616,1843647,"vmuh.h">>, <<1843648,1843679,"vmuh.w">>, <<1843680,1843711,"vmuh.d">>, <<1843712,1843743,"vmuh.bu">>,
  <<1843744,1843775,"vmuh.hu">>, <<1843776,1843807,"vmuh.wu">>, <<1843808,1843839,"vmuh.du">>, <<1844224,1844255,"vmulwev.h.b">>,
  <<1844256,1844287,"vmulwev.w.h">>, <<1844288,1844319,"vmulwev.d.w">>, <<1844320,1844351,"vmulwev.q.d">>, <<1844352,1844383,"vmulwod.h.b">>,
  <<1844384,1844415,"vmulwod.w.h">>, <<1844416,1844447,"vmulwod.d.w">>, <<1844448,1844479,"vmulwod.q.d">>, <<1844736,1844767,"vmulwev.h.bu">>,
  <<1844768,1844799,"vmulwev.w.hu">>, <<1844800,1844831,"vmulwev.d.wu">>, <<1844832,1844863,"vmulwev.q.du">>, <<1844864,1844895,"vmulwod.h.bu">>,
  <<1844896,1844927,"vmulwod.w.hu">>, <<1844928,1844959,"vmulwod.d.wu">>, <<1844960,1844991,"vmulwod.q.du">>, <<1845248,1845279,"vmulwev.h.bu.b">>,
  <<1845280,1845311,"vmulwev.w.hu.h">>, <<1845312,1845343,"vmulwev.d.wu.w">>, <<1845344,1845375,"vmulwev.q.du.d">>,
  <<1845376,1845407,"vmulwod.h.bu.b">>, <<1845408,1845439,"vmulwod.w.hu.h">>, <<1845440,1845471,"vmulwod.d.wu.w">>,
  <<1845472,1845503,"vmulwod.q.du.d">>, <<1845760,1845791,"vmadd.b">>, <<1845792,1845823,"vmadd.h">>, <<1845824,1845855,"vmadd.w">>,
  <<1845856,1845887,"vmadd.d">>, <<1845888,1845919,"vmsub.b">>, <<1845920,1845951,"vmsub.h">>, <<1845952,1845983,"vmsub.w">>,
  <<1845984,1846015,"vmsub.d">>, <<1846016,1846047,"vmaddwev.h.b">>, <<1846048,1846079,"vmaddwev.w.h">>, <<1846080,1846111,"vmaddwev.d.w">>,
  <<1846112,1846143,"vmaddwev.q.d">>, <<1846144,1846175,"vmaddwod.h.b">>, <<1846176,1846207,"vmaddwod.w.h">>, <<1846208,1846239,"vmaddwod.d.w">>,
  <<1846240,1846271,"vmaddwod.q.d">>, <<1846528,1846559,"vmaddwev.h.bu">>, <<1846560,1846591,"vmaddwev.w.hu">>, <<1846592,1846623,"vmaddwev.d.wu">>,
  <<1846624,1846655,"vmaddwev.q.du">>, <<1846656,1846687,"vmaddwod.h.bu">>, <<1846688,1846719,"vmaddwod.w.hu">>, <<1846720,1846751,"vmaddwod.d.wu">>,
  <<1846752,1846783,"vmaddwod.q.du">>, <<1847040,1847071,"vmaddwev.h.bu.b">>, <<1847072,1847103,"vmaddwev.w.hu.h">>,
  <<1847104,1847135,"vmaddwev.d.wu.w">>, <<1847136,1847167,"vmaddwev.q.du.d">>, <<1847168,1847199,"vmaddwod.h.bu.b">>,
  <<1847200,1847231,"vmaddwod.w.hu.h">>, <<1847232,1847263,"vmaddwod.d.wu.w">>, <<1847264,1847295,"vmaddwod.q.du.d">>, <<1849344,1849375,"vdiv.b">>,
  <<1849376,1849407,"vdiv.h">>, <<1849408,1849439,"vdiv.w">>, <<1849440,1849471,"vdiv.d">>, <<1849472,1849503,"vmod.b">>,
  <<1849504,1849535,"vmod.h">>, <<1849536,1849567,"vmod.w">>, <<1849568,1849599,"vmod.d">>, <<1849600,1849631,"vdiv.bu">>,
  <<1849632,1849663,"vdiv.hu">>, <<1849664,1849695,"vdiv.wu">>, <<1849696,1849727,"vdiv.du">>, <<1849728,1849759,"vmod.bu">>,
  <<1849760,1849791,"vmod.hu">>, <<1849792,1849823,"vmod.wu">>, <<1849824,1849855,"vmod.du">>, <<1849856,1849887,"vsll.b">>,
  <<1849888,1849919,"vsll.h">>, <<1849920,1849951,"vsll.w">>, <<1849952,1849983,"vsll.d">>, <<1849984,1850015,"vsrl.b">>,
  <<1850016,1850047,"vsrl.h">>, <<1850048,1850079,"vsrl.w">>, <<1850080,1850111,"vsrl.d">>, <<1850112,1850143,"vsra.b">>,
  <<1850144,1850175,"vsra.h">>, <<1850176,1850207,"vsra.w">>, <<1850208,1850239,"vsra.d">>, <<1850240,1850271,"vrotr.b">>,
  <<1850272,1850303,"vrotr.h">>, <<1850304,1850335,"vrotr.w">>, <<1850336,1850367,"vrotr.d">>, <<1850368,1850399,"vsrlr.b">>,
  <<1850400,1850431,"vsrlr.h">>, <<1850432,1850463,"vsrlr.w">>, <<1850464,1850495,"vsrlr.d">>, <<1850496,1850527,"vsrar.b">>,
  <<1850528,1850559,"vsrar.h">>, <<1850560,1850591,"vsrar.w">>, <<1850592,1850623,"vsrar.d">>, <<1850656,1850687,"vsrln.b.h">>,
  <<1850688,1850719,"vsrln.h.w">>, <<1850720,1850751,"vsrln.w.d">>, <<1850784,1850815,"vsran.b.h">>, <<1850816,1850847,"vsran.h.w">>,
  <<1850848,1850879,"vsran.w.d">>, <<1850912,1850943,"vsrlrn.b.h">>, <<1850944,1850975,"vsrlrn.h.w">>, <<1850976,1851007,"vsrlrn.w.d">>,
  <<1851040,1851071,"vsrarn.b.h">>, <<1851072,1851103,"vsrarn.h.w">>, <<1851104,1851135,"vsrarn.w.d">>, <<1851168,1851199,"vssrln.b.h">>,
  <<1851200,1851231,"vssrln.h.w">>, <<1851232,1851263,"vssrln.w.d">>, <<1851296,1851327,"vssran.b.h">>, <<1851328,1851359,"vssran.h.w">>,
  <<1851360,1851391,"vssran.w.d">>, <<1851424,1851455,"vssrlrn.b.h">>, <<1851456,1851487,"vssrlrn.h.w">>, <<1851488,1851519,"vssrlrn.w.d">>,
  <<1851552,1851583,"vssrarn.b.h">>, <<1851584,1851615,"vssrarn.h.w">>, <<1851616,1851647,"vssrarn.w.d">>, <<1851680,1851711,"vssrln.bu.h">>,
  <<1851712,1851743,"vssrln.hu.w">>, <<1851744,1851775,"vssrln.wu.d">>, <<1851808,1851839,"vssran.bu.h">>, <<1851840,1851871,"vssran.hu.w">>,
  <<1851872,1851903,"vssran.wu.d">>, <<1851936,1851967,"vssrlrn.bu.h">>, <<1851968,1851999,"vssrlrn.hu.w">>, <<1852000,1852031,"vssrlrn.wu.d">>,
  <<1852064,1852095,"vssrarn.bu.h">>, <<1852096,1852127,"vssrarn.hu.w">>, <<1852128,1852159,"vssrarn.wu.d">>, <<1852160,1852191,"vbitclr.b">>,
  <<1852192,1852223,"vbitclr.h">>, <<1852224,1852255,"vbitclr.w">>, <<1852256,1852287,"vbitclr.d">>, <<1852288,1852319,"vbitset.b">>,
  <<1852320,1852351,"vbitset.h">>, <<1852352,1852383,"vbitset.w">>, <<1852384,1852415,"vbitset.d">>, <<1852416,1852447,"vbitrev.b">>,
  <<1852448,1852479,"vbitrev.h">>, <<1852480,1852511,"vbitrev.w">>, <<1852512,1852543,"vbitrev.d">>, <<1852800,1852831,"vpackev.b">>,
  <<1852832,1852863,"vpackev.h">>, <<1852864,1852895,"vpackev.w">>, <<1852896,1852927,"vpackev.d">>, <<1852928,1852959,"vpackod.b">>,
  <<1852960,1852991,"vpackod.h">>, <<1852992,1853023,"vpackod.w">>, <<1853024,1853055,"vpackod.d">>, <<1853056,1853087,"vilvl.b">>,
  <<1853088,1853119,"vilvl.h">>, <<1853120,1853151,"vilvl.w">>, <<1853152,1853183,"vilvl.d">>, <<1853184,1853215,"vilvh.b">>,
  <<1853216,1853247,"vilvh.h">>, <<1853248,1853279,"vilvh.w">>, <<1853280,1853311,"vilvh.d">>, <<1853312,1853343,"vpickev.b">>,
  <<1853344,1853375,"vpickev.h">>, <<1853376,1853407,"vpickev.w">>, <<1853408,1853439,"vpickev.d">>, <<1853440,1853471,"vpickod.b">>,
  <<1853472,1853503,"vpickod.h">>, <<1853504,1853535,"vpickod.w">>, <<1853536,1853567,"vpickod.d">>, <<1853568,1853599,"vreplve.b">>,
  <<1853600,1853631,"vreplve.h">>, <<1853632,1853663,"vreplve.w">>, <<1853664,1853695,"vreplve.d">>, <<1853824,1853855,"vand.v">>,
  <<1853856,1853887,"vor.v">>, <<1853888,1853919,"vxor.v">>, <<1853920,1853951,"vnor.v">>, <<1853952,1853983,"vandn.v">>,
  <<1853984,1854015,"vorn.v">>, <<1854144,1854175,"vfrstp.b">>, <<1854176,1854207,"vfrstp.h">>, <<1854272,1854303,"vadd.q">>,
  <<1854304,1854335,"vsub.q">>, <<1854336,1854367,"vsigncov.b">>, <<1854368,1854399,"vsigncov.h">>, <<1854400,1854431,"vsigncov.w">>,
  <<1854432,1854463,"vsigncov.d">>, <<1854496,1854527,"vfadd.s">>, <<1854528,1854559,"vfadd.d">>, <<1854624,1854655,"vfsub.s">>,
  <<1854656,1854687,"vfsub.d">>, <<1855008,1855039,"vfmul.s">>, <<1855040,1855071,"vfmul.d">>, <<1855136,1855167,"vfdiv.s">>,
  <<1855168,1855199,"vfdiv.d">>, <<1855264,1855295,"vfmax.s">>, <<1855296,1855327,"vfmax.d">>, <<1855392,1855423,"vfmin.s">>,
  <<1855424,1855455,"vfmin.d">>, <<1855520,1855551,"vfmaxa.s">>, <<1855552,1855583,"vfmaxa.d">>, <<1855648,1855679,"vfmina.s">>,
  <<1855680,1855711,"vfmina.d">>, <<1855872,1855903,"vfcvt.h.s">>, <<1855904,1855935,"vfcvt.s.d">>, <<1856000,1856031,"vffint.s.l">>,
  <<1856096,1856127,"vftint.w.d">>, <<1856128,1856159,"vftintrm.w.d">>, <<1856160,1856191,"vftintrp.w.d">>, <<1856192,1856223,"vftintrz.w.d">>,
  <<1856224,1856255,"vftintrne.w.d">>, <<1859232,1859263,"vshuf.h">>, <<1859264,1859295,"vshuf.w">>, <<1859296,1859327,"vshuf.d">>,
  <<1875968,1875999,"vseqi.b">>, <<1876000,1876031,"vseqi.h">>, <<1876032,1876063,"vseqi.w">>, <<1876064,1876095,"vseqi.d">>,
  <<1876096,1876127,"vslei.b">>, <<1876128,1876159,"vslei.h">>, <<1876160,1876191,"vslei.w">>, <<1876192,1876223,"vslei.d">>,
  <<1876224,1876255,"vslei.bu">>, <<1876256,1876287,"vslei.hu">>, <<1876288,1876319,"vslei.wu">>, <<1876320,1876351,"vslei.du">>,
  <<1876352,1876383,"vslti.b">>, <<1876384,1876415,"vslti.h">>, <<1876416,1876447,"vslti.w">>, <<1876448,1876479,"vslti.d">>,
  <<1876480,1876511,"vslti.bu">>, <<1876512,1876543,"vslti.hu">>, <<1876544,1876575,"vslti.wu">>, <<1876576,1876607,"vslti.du">>,
  <<1876608,1876639,"vaddi.bu">>, <<1876640,1876671,"vaddi.hu">>, <<1876672,1876703,"vaddi.wu">>, <<1876704,1876735,"vaddi.du">>,
  <<1876736,1876767,"vsubi.bu">>, <<1876768,1876799,"vsubi.hu">>, <<1876800,1876831,"vsubi.wu">>, <<1876832,1876863,"vsubi.du">>,
  <<1876864,1876895,"vbsll.v">>, <<1876896,1876927,"vbsrl.v">>, <<1876992,1877023,"vmaxi.b">>, <<1877024,1877055,"vmaxi.h">>,
  <<1877056,1877087,"vmaxi.w">>, <<1877088,1877119,"vmaxi.d">>, <<1877120,1877151,"vmini.b">>, <<1877152,1877183,"vmini.h">>,
  <<1877184,1877215,"vmini.w">>, <<1877216,1877247,"vmini.d">>, <<1877248,1877279,"vmaxi.bu">>, <<1877280,1877311,"vmaxi.hu">>,
  <<1877312,1877343,"vmaxi.wu">>, <<1877344,1877375,"vmaxi.du">>, <<1877376,1877407,"vmini.bu">>, <<1877408,1877439,"vmini.hu">>,
  <<1877440,1877471,"vmini.wu">>, <<1877472,1877503,"vmini.du">>, <<1877632,1877663,"vfrstpi.b">>, <<1877664,1877695,"vfrstpi.h">>,
  <<1877760,1877760,"vclo.b">>, <<1877761,1877761,"vclo.h">>, <<1877762,1877762,"vclo.w">>, <<1877763,1877763,"vclo.d">>,
  <<1877764,1877764,"vclz.b">>, <<1877765,1877765,"vclz.h">>, <<1877766,1877766,"vclz.w">>, <<1877767,1877767,"vclz.d">>,
  <<1877768,1877768,"vpcnt.b">>, <<1877769,1877769,"vpcnt.h">>, <<1877770,1877770,"vpcnt.w">>, <<1877771,1877771,"vpcnt.d">>,
  <<1877772,1877772,"vneg.b">>, <<1877773,1877773,"vneg.h">>, <<1877774,1877774,"vneg.w">>, <<1877775,1877775,"vneg.d">>,
  <<1877776,1877776,"vmskltz.b">>, <<1877777,1877777,"vmskltz.h">>, <<1877778,1877778,"vmskltz.w">>, <<1877779,1877779,"vmskltz.d">>,
  <<1877780,1877780,"vmskgez.b">>, <<1877784,1877784,"vmsknz.b">>, <<1877798,1877798,"vseteqz.v">>, <<1877799,1877799,"vsetnez.v">>,
  <<1877800,1877800,"vsetanyeqz.b">>, <<1877801,1877801,"vsetanyeqz.h">>, <<1877802,1877802,"vsetanyeqz.w">>, <<1877803,1877803,"vsetanyeqz.d">>,
  <<1877804,1877804,"vsetallnez.b">>, <<1877805,1877805,"vsetallnez.h">>, <<1877806,1877806,"vsetallnez.w">>, <<1877807,1877807,"vsetallnez.d">>,
  <<1877809,1877809,"vflogb.s">>, <<1877810,1877810,"vflogb.d">>, <<1877813,1877813,"vfclass.s">>, <<1877814,1877814,"vfclass.d">>,
  <<1877817,1877817,"vfsqrt.s">>, <<1877818,1877818,"vfsqrt.d">>, <<1877821,1877821,"vfrecip.s">>, <<1877822,1877822,"vfrecip.d">>,
  <<1877825,1877825,"vfrsqrt.s">>, <<1877826,1877826,"vfrsqrt.d">>, <<1877829,1877829,"vfrecipe.s">>, <<1877830,1877830,"vfrecipe.d">>,
  <<1877833,1877833,"vfrsqrte.s">>, <<1877834,1877834,"vfrsqrte.d">>, <<1877837,1877837,"vfrint.s">>, <<1877838,1877838,"vfrint.d">>,
  <<1877841,1877841,"vfrintrm.s">>, <<1877842,1877842,"vfrintrm.d">>, <<1877845,1877845,"vfrintrp.s">>, <<1877846,1877846,"vfrintrp.d">>,
  <<1877849,1877849,"vfrintrz.s">>, <<1877850,1877850,"vfrintrz.d">>, <<1877853,1877853,"vfrintrne.s">>, <<1877854,1877854,"vfrintrne.d">>,
  <<1877882,1877882,"vfcvtl.s.h">>, <<1877883,1877883,"vfcvth.s.h">>, <<1877884,1877884,"vfcvtl.d.s">>, <<1877885,1877885,"vfcvth.d.s">>,
  <<1877888,1877888,"vffint.s.w">>, <<1877889,1877889,"vffint.s.wu">>, <<1877890,1877890,"vffint.d.l">>, <<1877891,1877891,"vffint.d.lu">>,
  <<1877892,1877892,"vffintl.d.w">>, <<1877893,1877893,"vffinth.d.w">>, <<1877900,1877900,"vftint.w.s">>, <<1877901,1877901,"vftint.l.d">>,
  <<1877902,1877902,"vftintrm.w.s">>, <<1877903,1877903,"vftintrm.l.d">>, <<1877904,1877904,"vftintrp.w.s">>, <<1877905,1877905,"vftintrp.l.d">>,
  <<1877906,1877906,"vftintrz.w.s">>, <<1877907,1877907,"vftintrz.l.d">>, <<1877908,1877908,"vftintrne.w.s">>, <<1877909,1877909,"vftintrne.l.d">>,
  <<1877910,1877910,"vftint.wu.s">>, <<1877911,1877911,"vftint.lu.d">>, <<1877916,1877916,"vftintrz.wu.s">>, <<1877917,1877917,"vftintrz.lu.d">>,
  <<1877920,1877920,"vftintl.l.s">>, <<1877921,1877921,"vftinth.l.s">>, <<1877922,1877922,"vftintrml.l.s">>, <<1877923,1877923,"vftintrmh.l.s">>,
  <<1877924,1877924,"vftintrpl.l.s">>, <<1877925,1877925,"vftintrph.l.s">>, <<1877926,1877926,"vftintrzl.l.s">>, <<1877927,1877927,"vftintrzh.l.s">>,
  <<1877928,1877928,"vftintrnel.l.s">>, <<1877929,1877929,"vftintrneh.l.s">>, <<1877944,1877944,"vexth.h.b">>, <<1877945,1877945,"vexth.w.h">>,
  <<1877946,1877946,"vexth.d.w">>, <<1877947,1877947,"vexth.q.d">>, <<1877948,1877948,"vexth.hu.bu">>, <<1877949,1877949,"vexth.wu.hu">>,
  <<1877950,1877950,"vexth.du.wu">>, <<1877951,1877951,"vexth.qu.du">>, <<1877952,1877952,"vreplgr2vr.b">>, <<1877953,1877953,"vreplgr2vr.h">>,
  <<1877954,1877954,"vreplgr2vr.w">>, <<1877955,1877955,"vreplgr2vr.d">>, <<1878024,1878031,"vrotri.b">>, <<1878032,1878047,"vrotri.h">>,
  <<1878048,1878079,"vrotri.w">>, <<1878080,1878143,"vrotri.d">>, <<1878280,1878287,"vsrlri.b">>, <<1878288,1878303,"vsrlri.h">>,
  <<1878304,1878335,"vsrlri.w">>, <<1878336,1878399,"vsrlri.d">>, <<1878536,1878543,"vsrari.b">>, <<1878544,1878559,"vsrari.h">>,
  <<1878560,1878591,"vsrari.w">>, <<1878592,1878655,"vsrari.d">>, <<1882848,1882863,"vinsgr2vr.b">>, <<1882864,1882871,"vinsgr2vr.h">>,
  <<1882872,1882875,"vinsgr2vr.w">>, <<1882876,1882877,"vinsgr2vr.d">>, <<1883104,1883119,"vpickve2gr.b">>, <<1883120,1883127,"vpickve2gr.h">>,
  <<1883128,1883131,"vpickve2gr.w">>, <<1883132,1883133,"vpickve2gr.d">>, <<1883360,1883375,"vpickve2gr.bu">>, <<1883376,1883383,"vpickve2gr.hu">>,
  <<1883384,1883387,"vpickve2gr.wu">>, <<1883388,1883389,"vpickve2gr.du">>, <<1883616,1883631,"vreplvei.b">>, <<1883632,1883639,"vreplvei.h">>,
  <<1883640,1883643,"vreplvei.w">>, <<1883644,1883645,"vreplvei.d">>, <<1884680,1884687,"vsllwil.h.b">>, <<1884688,1884703,"vsllwil.w.h">>,
  <<1884704,1884735,"vsllwil.d.w">>, <<1884736,1884736,"vextl.q.d">>, <<1884936,1884943,"vsllwil.hu.bu">>, <<1884944,1884959,"vsllwil.wu.hu">>,
  <<1884960,1884991,"vsllwil.du.wu">>, <<1884992,1884992,"vextl.qu.du">>, <<1885192,1885199,"vbitclri.b">>, <<1885200,1885215,"vbitclri.h">>,
  <<1885216,1885247,"vbitclri.w">>, <<1885248,1885311,"vbitclri.d">>, <<1885448,1885455,"vbitseti.b">>, <<1885456,1885471,"vbitseti.h">>,
  <<1885472,1885503,"vbitseti.w">>, <<1885504,1885567,"vbitseti.d">>, <<1885704,1885711,"vbitrevi.b">>, <<1885712,1885727,"vbitrevi.h">>,
  <<1885728,1885759,"vbitrevi.w">>, <<1885760,1885823,"vbitrevi.d">>, <<1886472,1886479,"vsat.b">>, <<1886480,1886495,"vsat.h">>,
  <<1886496,1886527,"vsat.w">>, <<1886528,1886591,"vsat.d">>, <<1886728,1886735,"vsat.bu">>, <<1886736,1886751,"vsat.hu">>,
  <<1886752,1886783,"vsat.wu">>, <<1886784,1886847,"vsat.du">>, <<1886984,1886991,"vslli.b">>, <<1886992,1887007,"vslli.h">>,
  <<1887008,1887039,"vslli.w">>, <<1887040,1887103,"vslli.d">>, <<1887240,1887247,"vsrli.b">>, <<1887248,1887263,"vsrli.h">>,
  <<1887264,1887295,"vsrli.w">>, <<1887296,1887359,"vsrli.d">>, <<1887496,1887503,"vsrai.b">>, <<1887504,1887519,"vsrai.h">>,
  <<1887520,1887551,"vsrai.w">>, <<1887552,1887615,"vsrai.d">>, <<1888272,1888287,"vsrlni.b.h">>, <<1888288,1888319,"vsrlni.h.w">>,
  <<1888320,1888383,"vsrlni.w.d">>, <<1888384,1888511,"vsrlni.d.q">>, <<1888528,1888543,"vsrlrni.b.h">>, <<1888544,1888575,"vsrlrni.h.w">>,
  <<1888576,1888639,"vsrlrni.w.d">>, <<1888640,1888767,"vsrlrni.d.q">>, <<1888784,1888799,"vssrlni.b.h">>, <<1888800,1888831,"vssrlni.h.w">>,
  <<1888832,1888895,"vssrlni.w.d">>, <<1888896,1889023,"vssrlni.d.q">>, <<1889040,1889055,"vssrlni.bu.h">>, <<1889056,1889087,"vssrlni.hu.w">>,
  <<1889088,1889151,"vssrlni.wu.d">>, <<1889152,1889279,"vssrlni.du.q">>, <<1889296,1889311,"vssrlrni.b.h">>, <<1889312,1889343,"vssrlrni.h.w">>,
  <<1889344,1889407,"vssrlrni.w.d">>, <<1889408,1889535,"vssrlrni.d.q">>, <<1889552,1889567,"vssrlrni.bu.h">>, <<1889568,1889599,"vssrlrni.hu.w">>,
  <<1889600,1889663,"vssrlrni.wu.d">>, <<1889664,1889791,"vssrlrni.du.q">>, <<1889808,1889823,"vsrani.b.h">>, <<1889824,1889855,"vsrani.h.w">>,
  <<1889856,1889919,"vsrani.w.d">>, <<1889920,1890047,"vsrani.d.q">>, <<1890064,1890079,"vsrarni.b.h">>, <<1890080,1890111,"vsrarni.h.w">>,
  <<1890112,1890175,"vsrarni.w.d">>, <<1890176,1890303,"vsrarni.d.q">>, <<1890320,1890335,"vssrani.b.h">>, <<1890336,1890367,"vssrani.h.w">>,
  <<1890368,1890431,"vssrani.w.d">>, <<1890432,1890559,"vssrani.d.q">>, <<1890576,1890591,"vssrani.bu.h">>, <<1890592,1890623,"vssrani.hu.w">>,
  <<1890624,1890687,"vssrani.wu.d">>, <<1890688,1890815,"vssrani.du.q">>, <<1890832,1890847,"vssrarni.b.h">>, <<1890848,1890879,"vssrarni.h.w">>,
  <<1890880,1890943,"vssrarni.w.d">>, <<1890944,1891071,"vssrarni.d.q">>, <<1891088,1891103,"vssrarni.bu.h">>, <<1891104,1891135,"vssrarni.hu.w">>,
  <<1891136,1891199,"vssrarni.wu.d">>, <<1891200,1891327,"vssrarni.du.q">>, <<1892352,1892607,"vextrins.d">>, <<1892608,1892863,"vextrins.w">>,
  <<1892864,1893119,"vextrins.h">>, <<1893120,1893375,"vextrins.b">>, <<1893376,1893631,"vshuf4i.b">>, <<1893632,1893887,"vshuf4i.h">>,
  <<1893888,1894143,"vshuf4i.w">>, <<1894144,1894399,"vshuf4i.d">>, <<1896704,1896959,"vbitseli.b">>, <<1897472,1897727,"vandi.b">>,
  <<1897728,1897983,"vori.b">>, <<1897984,1898239,"vxori.b">>, <<1898240,1898495,"vnori.b">>, <<1898496,1898751,"vldi">>,
  <<1898752,1899007,"vpermi.w">>, <<1900544,1900575,"xvseq.b">>, <<1900576,1900607,"xvseq.h">>, <<1900608,1900639,"xvseq.w">>,
  <<1900640,1900671,"xvseq.d">>, <<1900672,1900703,"xvsle.b">>, <<1900704,1900735,"xvsle.h">>, <<1900736,1900767,"xvsle.w">>,
  <<1900768,1900799,"xvsle.d">>, <<1900800,1900831,"xvsle.bu">>, <<1900832,1900863,"xvsle.hu">>, <<1900864,1900895,"xvsle.wu">>,
  <<1900896,1900927,"xvsle.du">>, <<1900928,1900959,"xvslt.b">>, <<1900960,1900991,"xvslt.h">>, <<1900992,1901023,"xvslt.w">>,
  <<1901024,1901055,"xvslt.d">>, <<1901056,1901087,"xvslt.bu">>, <<1901088,1901119,"xvslt.hu">>, <<1901120,1901151,"xvslt.wu">>,
  <<1901152,1901183,"xvslt.du">>, <<1901184,1901215,"xvadd.b">>, <<1901216,1901247,"xvadd.h">>, <<1901248,1901279,"xvadd.w">>,
  <<1901280,1901311,"xvadd.d">>, <<1901312,1901343,"xvsub.b">>, <<1901344,1901375,"xvsub.h">>, <<1901376,1901407,"xvsub.w">>,
  <<1901408,1901439,"xvsub.d">>, <<1902464,1902495,"xvaddwev.h.b">>, <<1902496,1902527,"xvaddwev.w.h">>, <<1902528,1902559,"xvaddwev.d.w">>,
  <<1902560,1902591,"xvaddwev.q.d">>, <<1902592,1902623,"xvsubwev.h.b">>, <<1902624,1902655,"xvsubwev.w.h">>, <<1902656,1902687,"xvsubwev.d.w">>,
  <<1902688,1902719,"xvsubwev.q.d">>, <<1902720,1902751,"xvaddwod.h.b">>, <<1902752,1902783,"xvaddwod.w.h">>, <<1902784,1902815,"xvaddwod.d.w">>,
  <<1902816,1902847,"xvaddwod.q.d">>, <<1902848,1902879,"xvsubwod.h.b">>, <<1902880,1902911,"xvsubwod.w.h">>, <<1902912,1902943,"xvsubwod.d.w">>,
  <<1902944,1902975,"xvsubwod.q.d">>, <<1903488,1903519,"xvaddwev.h.bu">>, <<1903520,1903551,"xvaddwev.w.hu">>, <<1903552,1903583,"xvaddwev.d.wu">>,
  <<1903584,1903615,"xvaddwev.q.du">>, <<1903616,1903647,"xvsubwev.h.bu">>, <<1903648,1903679,"xvsubwev.w.hu">>, <<1903680,1903711,"xvsubwev.d.wu">>,
  <<1903712,1903743,"xvsubwev.q.du">>, <<1903744,1903775,"xvaddwod.h.bu">>, <<1903776,1903807,"xvaddwod.w.hu">>, <<1903808,1903839,"xvaddwod.d.wu">>,
  <<1903840,1903871,"xvaddwod.q.du">>, <<1903872,1903903,"xvsubwod.h.bu">>, <<1903904,1903935,"xvsubwod.w.hu">>, <<1903936,1903967,"xvsubwod.d.wu">>,
  <<1903968,1903999,"xvsubwod.q.du">>, <<1904512,1904543,"xvaddwev.h.bu.b">>, <<1904544,1904575,"xvaddwev.w.hu.h">>,
  <<1904576,1904607,"xvaddwev.d.wu.w">>, <<1904608,1904639,"xvaddwev.q.du.d">>, <<1904640,1904671,"xvaddwod.h.bu.b">>,
  <<1904672,1904703,"xvaddwod.w.hu.h">>, <<1904704,1904735,"xvaddwod.d.wu.w">>, <<1904736,1904767,"xvaddwod.q.du.d">>,
  <<1905024,1905055,"xvsadd.b">>, <<1905056,1905087,"xvsadd.h">>, <<1905088,1905119,"xvsadd.w">>, <<1905120,1905151,"xvsadd.d">>,
  <<1905152,1905183,"xvssub.b">>, <<1905184,1905215,"xvssub.h">>, <<1905216,1905247,"xvssub.w">>, <<1905248,1905279,"xvssub.d">>,
  <<1905280,1905311,"xvsadd.bu">>, <<1905312,1905343,"xvsadd.hu">>, <<1905344,1905375,"xvsadd.wu">>, <<1905376,1905407,"xvsadd.du">>,
  <<1905408,1905439,"xvssub.bu">>, <<1905440,1905471,"xvssub.hu">>, <<1905472,1905503,"xvssub.wu">>, <<1905504,1905535,"xvssub.du">>,
  <<1905920,1905951,"xvhaddw.h.b">>, <<1905952,1905983,"xvhaddw.w.h">>, <<1905984,1906015,"xvhaddw.d.w">>, <<1906016,1906047,"xvhaddw.q.d">>,
  <<1906048,1906079,"xvhsubw.h.b">>, <<1906080,1906111,"xvhsubw.w.h">>, <<1906112,1906143,"xvhsubw.d.w">>, <<1906144,1906175,"xvhsubw.q.d">>,
  <<1906176,1906207,"xvhaddw.hu.bu">>, <<1906208,1906239,"xvhaddw.wu.hu">>, <<1906240,1906271,"xvhaddw.du.wu">>, <<1906272,1906303,"xvhaddw.qu.du">>,
  <<1906304,1906335,"xvhsubw.hu.bu">>, <<1906336,1906367,"xvhsubw.wu.hu">>, <<1906368,1906399,"xvhsubw.du.wu">>, <<1906400,1906431,"xvhsubw.qu.du">>,
  <<1906432,1906463,"xvadda.b">>, <<1906464,1906495,"xvadda.h">>, <<1906496,1906527,"xvadda.w">>, <<1906528,1906559,"xvadda.d">>,
  <<1906688,1906719,"xvabsd.b">>, <<1906720,1906751,"xvabsd.h">>, <<1906752,1906783,"xvabsd.w">>, <<1906784,1906815,"xvabsd.d">>,
  <<1906816,1906847,"xvabsd.bu">>, <<1906848,1906879,"xvabsd.hu">>, <<1906880,1906911,"xvabsd.wu">>, <<1906912,1906943,"xvabsd.du">>,
  <<1906944,1906975,"xvavg.b">>, <<1906976,1907007,"xvavg.h">>, <<1907008,1907039,"xvavg.w">>, <<1907040,1907071,"xvavg.d">>,
  <<1907072,1907103,"xvavg.bu">>, <<1907104,1907135,"xvavg.hu">>, <<1907136,1907167,"xvavg.wu">>, <<1907168,1907199,"xvavg.du">>,
  <<1907200,1907231,"xvavgr.b">>, <<1907232,1907263,"xvavgr.h">>, <<1907264,1907295,"xvavgr.w">>, <<1907296,1907327,"xvavgr.d">>,
  <<1907328,1907359,"xvavgr.bu">>, <<1907360,1907391,"xvavgr.hu">>, <<1907392,1907423,"xvavgr.wu">>, <<1907424,1907455,"xvavgr.du">>,
  <<1907712,1907743,"xvmax.b">>, <<1907744,1907775,"xvmax.h">>, <<1907776,1907807,"xvmax.w">>, <<1907808,1907839,"xvmax.d">>,
  <<1907840,1907871,"xvmin.b">>, <<1907872,1907903,"xvmin.h">>, <<1907904,1907935,"xvmin.w">>, <<1907936,1907967,"xvmin.d">>,
  <<1907968,1907999,"xvmax.bu">>, <<1908000,1908031,"xvmax.hu">>, <<1908032,1908063,"xvmax.wu">>, <<1908064,1908095,"xvmax.du">>,
  <<1908096,1908127,"xvmin.bu">>, <<1908128,1908159,"xvmin.hu">>, <<1908160,1908191,"xvmin.wu">>, <<1908192,1908223,"xvmin.du">>,
  <<1908992,1909023,"xvmul.b">>, <<1909024,1909055,"xvmul.h">>, <<1909056,1909087,"xvmul.w">>, <<1909088,1909119,"xvmul.d">>,
  <<1909120,1909151,"xvmuh.b">>, <<1909152,1909183,"xvmuh.h">>, <<1909184,1909215,"xvmuh.w">>, <<1909216,1909247,"xvmuh.d">>,
  <<1909248,1909279,"xvmuh.bu">>, <<1909280,1909311,"xvmuh.hu">>, <<1909312,1909343,"xvmuh.wu">>, <<1909344,1909375,"xvmuh.du">>,
  <<1909760,1909791,"xvmulwev.h.b">>, <<1909792,1909823,"xvmulwev.w.h">>, <<1909824,1909855,"xvmulwev.d.w">>, <<1909856,1909887,"xvmulwev.q.d">>,
  <<1909888,1909919,"xvmulwod.h.b">>, <<1909920,1909951,"xvmulwod.w.h">>, <<1909952,1909983,"xvmulwod.d.w">>, <<1909984,1910015,"xvmulwod.q.d">>,
  <<1910272,1910303,"xvmulwev.h.bu">>, <<1910304,1910335,"xvmulwev.w.hu">>, <<1910336,1910367,"xvmulwev.d.wu">>, <<1910368,1910399,"xvmulwev.q.du">>,
  <<1910400,1910431,"xvmulwod.h.bu">>, <<1910432,1910463,"xvmulwod.w.hu">>, <<1910464,1910495,"xvmulwod.d.wu">>, <<1910496,1910527,"xvmulwod.q.du">>,
  <<1910784,1910815,"xvmulwev.h.bu.b">>, <<1910816,1910847,"xvmulwev.w.hu.h">>, <<1910848,1910879,"xvmulwev.d.wu.w">>,
  <<1910880,1910911,"xvmulwev.q.du.d">>, <<1910912,1910943,"xvmulwod.h.bu.b">>, <<1910944,1910975,"xvmulwod.w.hu.h">>,
  <<1910976,1911007,"xvmulwod.d.wu.w">>, <<1911008,1911039,"xvmulwod.q.du.d">>, <<1911296,1911327,"xvmadd.b">>, <<1911328,1911359,"xvmadd.h">>,
  <<1911360,1911391,"xvmadd.w">>, <<1911392,1911423,"xvmadd.d">>, <<1911424,1911455,"xvmsub.b">>, <<1911456,1911487,"xvmsub.h">>,
  <<1911488,1911519,"xvmsub.w">>, <<1911520,1911551,"xvmsub.d">>, <<1911552,1911583,"xvmaddwev.h.b">>, <<1911584,1911615,"xvmaddwev.w.h">>,
  <<1911616,1911647,"xvmaddwev.d.w">>, <<1911648,1911679,"xvmaddwev.q.d">>, <<1911680,1911711,"xvmaddwod.h.b">>, <<1911712,1911743,"xvmaddwod.w.h">>,
  <<1911744,1911775,"xvmaddwod.d.w">>, <<1911776,1911807,"xvmaddwod.q.d">>, <<1912064,1912095,"xvmaddwev.h.bu">>,
  <<1912096,1912127,"xvmaddwev.w.hu">>, <<1912128,1912159,"xvmaddwev.d.wu">>, <<1912160,1912191,"xvmaddwev.q.du">>,
  <<1912192,1912223,"xvmaddwod.h.bu">>, <<1912224,1912255,"xvmaddwod.w.hu">>, <<1912256,1912287,"xvmaddwod.d.wu">>,
  <<1912288,1912319,"xvmaddwod.q.du">>, <<1912576,1912607,"xvmaddwev.h.bu.b">>, <<1912608,1912639,"xvmaddwev.w.hu.h">>,
  <<1912640,1912671,"xvmaddwev.d.wu.w">>, <<1912672,1912703,"xvmaddwev.q.du.d">>, <<1912704,1912735,"xvmaddwod.h.bu.b">>,
  <<1912736,1912767,"xvmaddwod.w.hu.h">>, <<1912768,1912799,"xvmaddwod.d.wu.w">>, <<1912800,1912831,"xvmaddwod.q.du.d">>,
  <<1914880,1914911,"xvdiv.b">>, <<1914912,1914943,"xvdiv.h">>, <<1914944,1914975,"xvdiv.w">>, <<1914976,1915007,"xvdiv.d">>,
  <<1915008,1915039,"xvmod.b">>, <<1915040,1915071,"xvmod.h">>, <<1915072,1915103,"xvmod.w">>, <<1915104,1915135,"xvmod.d">>,
  <<1915136,1915167,"xvdiv.bu">>, <<1915168,1915199,"xvdiv.hu">>, <<1915200,1915231,"xvdiv.wu">>, <<1915232,1915263,"xvdiv.du">>,
  <<1915264,1915295,"xvmod.bu">>, <<1915296,1915327,"xvmod.hu">>, <<1915328,1915359,"xvmod.wu">>, <<1915360,1915391,"xvmod.du">>,
  <<1915392,1915423,"xvsll.b">>, <<1915424,1915455,"xvsll.h">>, <<1915456,1915487,"xvsll.w">>, <<1915488,1915519,"xvsll.d">>,
  <<1915520,1915551,"xvsrl.b">>, <<1915552,1915583,"xvsrl.h">>, <<1915584,1915615,"xvsrl.w">>, <<1915616,1915647,"xvsrl.d">>,
  <<1915648,1915679,"xvsra.b">>, <<1915680,1915711,"xvsra.h">>, <<1915712,1915743,"xvsra.w">>, <<1915744,1915775,"xvsra.d">>,
  <<1915776,1915807,"xvrotr.b">>, <<1915808,1915839,"xvrotr.h">>, <<1915840,1915871,"xvrotr.w">>, <<1915872,1915903,"xvrotr.d">>,
  <<1915904,1915935,"xvsrlr.b">>, <<1915936,1915967,"xvsrlr.h">>, <<1915968,1915999,"xvsrlr.w">>, <<1916000,1916031,"xvsrlr.d">>,
  <<1916032,1916063,"xvsrar.b">>, <<1916064,1916095,"xvsrar.h">>, <<1916096,1916127,"xvsrar.w">>, <<1916128,1916159,"xvsrar.d">>,
  <<1916192,1916223,"xvsrln.b.h">>, <<1916224,1916255,"xvsrln.h.w">>, <<1916256,1916287,"xvsrln.w.d">>, <<1916320,1916351,"xvsran.b.h">>,
  <<1916352,1916383,"xvsran.h.w">>, <<1916384,1916415,"xvsran.w.d">>, <<1916448,1916479,"xvsrlrn.b.h">>, <<1916480,1916511,"xvsrlrn.h.w">>,
  <<1916512,1916543,"xvsrlrn.w.d">>, <<1916576,1916607,"xvsrarn.b.h">>, <<1916608,1916639,"xvsrarn.h.w">>, <<1916640,1916671,"xvsrarn.w.d">>,
  <<1916704,1916735,"xvssrln.b.h">>, <<1916736,1916767,"xvssrln.h.w">>, <<1916768,1916799,"xvssrln.w.d">>, <<1916832,1916863,"xvssran.b.h">>,
  <<1916864,1916895,"xvssran.h.w">>, <<1916896,1916927,"xvssran.w.d">>, <<1916960,1916991,"xvssrlrn.b.h">>, <<1916992,1917023,"xvssrlrn.h.w">>,
  <<1917024,1917055,"xvssrlrn.w.d">>, <<1917088,1917119,"xvssrarn.b.h">>, <<1917120,1917151,"xvssrarn.h.w">>, <<1917152,1917183,"xvssrarn.w.d">>,
  <<1917216,1917247,"xvssrln.bu.h">>, <<1917248,1917279,"xvssrln.hu.w">>, <<1917280,1917311,"xvssrln.wu.d">>, <<1917344,1917375,"xvssran.bu.h">>,
  <<1917376,1917407,"xvssran.hu.w">>, <<1917408,1917439,"xvssran.wu.d">>, <<1917472,1917503,"xvssrlrn.bu.h">>, <<1917504,1917535,"xvssrlrn.hu.w">>,
  <<1917536,1917567,"xvssrlrn.wu.d">>, <<1917600,1917631,"xvssrarn.bu.h">>, <<1917632,1917663,"xvssrarn.hu.w">>, <<1917664,1917695,"xvssrarn.wu.d">>,
  <<1917696,1917727,"xvbitclr.b">>, <<1917728,1917759,"xvbitclr.h">>, <<1917760,1917791,"xvbitclr.w">>, <<1917792,1917823,"xvbitclr.d">>,
  <<1917824,1917855,"xvbitset.b">>, <<1917856,1917887,"xvbitset.h">>, <<1917888,1917919,"xvbitset.w">>, <<1917920,1917951,"xvbitset.d">>,
  <<1917952,1917983,"xvbitrev.b">>, <<1917984,1918015,"xvbitrev.h">>, <<1918016,1918047,"xvbitrev.w">>, <<1918048,1918079,"xvbitrev.d">>,
  <<1918336,1918367,"xvpackev.b">>, <<1918368,1918399,"xvpackev.h">>, <<1918400,1918431,"xvpackev.w">>, <<1918432,1918463,"xvpackev.d">>,
  <<1918464,1918495,"xvpackod.b">>, <<1918496,1918527,"xvpackod.h">>, <<1918528,1918559,"xvpackod.w">>, <<1918560,1918591,"xvpackod.d">>,
  <<1918592,1918623,"xvilvl.b">>, <<1918624,1918655,"xvilvl.h">>, <<1918656,1918687,"xvilvl.w">>, <<1918688,1918719,"xvilvl.d">>,
  <<1918720,1918751,"xvilvh.b">>, <<1918752,1918783,"xvilvh.h">>, <<1918784,1918815,"xvilvh.w">>, <<1918816,1918847,"xvilvh.d">>,
  <<1918848,1918879,"xvpickev.b">>, <<1918880,1918911,"xvpickev.h">>, <<1918912,1918943,"xvpickev.w">>, <<1918944,1918975,"xvpickev.d">>,
  <<1918976,1919007,"xvpickod.b">>, <<1919008,1919039,"xvpickod.h">>, <<1919040,1919071,"xvpickod.w">>, <<1919072,1919103,"xvpickod.d">>,
  <<1919104,1919135,"xvreplve.b">>, <<1919136,1919167,"xvreplve.h">>, <<1919168,1919199,"xvreplve.w">>, <<1919200,1919231,"xvreplve.d">>,
  <<1919360,1919391,"xvand.v">>, <<1919392,1919423,"xvor.v">>, <<1919424,1919455,"xvxor.v">>, <<1919456,1919487,"xvnor.v">>,
  <<1919488,1919519,"xvandn.v">>, <<1919520,1919551,"xvorn.v">>, <<1919680,1919711,"xvfrstp.b">>, <<1919712,1919743,"xvfrstp.h">>,
  <<1919808,1919839,"xvadd.q">>, <<1919840,1919871,"xvsub.q">>, <<1919872,1919903,"xvsigncov.b">>, <<1919904,1919935,"xvsigncov.h">>,
  <<1919936,1919967,"xvsigncov.w">>, <<1919968,1919999,"xvsigncov.d">>, <<1920032,1920063,"xvfadd.s">>, <<1920064,1920095,"xvfadd.d">>,
  <<1920160,1920191,"xvfsub.s">>, <<1920192,1920223,"xvfsub.d">>, <<1920544,1920575,"xvfmul.s">>, <<1920576,1920607,"xvfmul.d">>,
  <<1920672,1920703,"xvfdiv.s">>, <<1920704,1920735,"xvfdiv.d">>, <<1920800,1920831,"xvfmax.s">>, <<1920832,1920863,"xvfmax.d">>,
  <<1920928,1920959,"xvfmin.s">>, <<1920960,1920991,"xvfmin.d">>, <<1921056,1921087,"xvfmaxa.s">>, <<1921088,1921119,"xvfmaxa.d">>,
  <<1921184,1921215,"xvfmina.s">>, <<1921216,1921247,"xvfmina.d">>, <<1921408,1921439,"xvfcvt.h.s">>, <<1921440,1921471,"xvfcvt.s.d">>,
  <<1921536,1921567,"xvffint.s.l">>, <<1921632,1921663,"xvftint.w.d">>, <<1921664,1921695,"xvftintrm.w.d">>, <<1921696,1921727,"xvftintrp.w.d">>,
  <<1921728,1921759,"xvftintrz.w.d">>, <<1921760,1921791,"xvftintrne.w.d">>, <<1924768,1924799,"xvshuf.h">>, <<1924800,1924831,"xvshuf.w">>,
  <<1924832,1924863,"xvshuf.d">>, <<1924928,1924959,"xvperm.w">>, <<1941504,1941535,"xvseqi.b">>, <<1941536,1941567,"xvseqi.h">>,
  <<1941568,1941599,"xvseqi.w">>, <<1941600,1941631,"xvseqi.d">>, <<1941632,1941663,"xvslei.b">>, <<1941664,1941695,"xvslei.h">>,
  <<1941696,1941727,"xvslei.w">>, <<1941728,1941759,"xvslei.d">>, <<1941760,1941791,"xvslei.bu">>, <<1941792,1941823,"xvslei.hu">>,
  <<1941824,1941855,"xvslei.wu">>, <<1941856,1941887,"xvslei.du">>, <<1941888,1941919,"xvslti.b">>, <<1941920,1941951,"xvslti.h">>,
  <<1941952,1941983,"xvslti.w">>, <<1941984,1942015,"xvslti.d">>, <<1942016,1942047,"xvslti.bu">>, <<1942048,1942079,"xvslti.hu">>,
  <<1942080,1942111,"xvslti.wu">>, <<1942112,1942143,"xvslti.du">>, <<1942144,1942175,"xvaddi.bu">>, <<1942176,1942207,"xvaddi.hu">>,
  <<1942208,1942239,"xvaddi.wu">>, <<1942240,1942271,"xvaddi.du">>, <<1942272,1942303,"xvsubi.bu">>, <<1942304,1942335,"xvsubi.hu">>,
  <<1942336,1942367,"xvsubi.wu">>, <<1942368,1942399,"xvsubi.du">>, <<1942400,1942431,"xvbsll.v">>, <<1942432,1942463,"xvbsrl.v">>,
  <<1942528,1942559,"xvmaxi.b">>, <<1942560,1942591,"xvmaxi.h">>, <<1942592,1942623,"xvmaxi.w">>, <<1942624,1942655,"xvmaxi.d">>,
  <<1942656,1942687,"xvmini.b">>, <<1942688,1942719,"xvmini.h">>, <<1942720,1942751,"xvmini.w">>, <<1942752,1942783,"xvmini.d">>,
  <<1942784,1942815,"xvmaxi.bu">>, <<1942816,1942847,"xvmaxi.hu">>, <<1942848,1942879,"xvmaxi.wu">>, <<1942880,1942911,"xvmaxi.du">>,
  <<1942912,1942943,"xvmini.bu">>, <<1942944,1942975,"xvmini.hu">>, <<1942976,1943007,"xvmini.wu">>, <<1943008,1943039,"xvmini.du">>,
  <<1943168,1943199,"xvfrstpi.b">>, <<1943200,1943231,"xvfrstpi.h">>, <<1943296,1943296,"xvclo.b">>, <<1943297,1943297,"xvclo.h">>,
  <<1943298,1943298,"xvclo.w">>, <<1943299,1943299,"xvclo.d">>, <<1943300,1943300,"xvclz.b">>, <<1943301,1943301,"xvclz.h">>,
  <<1943302,1943302,"xvclz.w">>, <<1943303,1943303,"xvclz.d">>, <<1943304,1943304,"xvpcnt.b">>, <<1943305,1943305,"xvpcnt.h">>,
  <<1943306,1943306,"xvpcnt.w">>, <<1943307,1943307,"xvpcnt.d">>, <<1943308,1943308,"xvneg.b">>, <<1943309,1943309,"xvneg.h">>,
  <<1943310,1943310,"xvneg.w">>, <<1943311,1943311,"xvneg.d">>, <<1943312,1943312,"xvmskltz.b">>, <<1943313,1943313,"xvmskltz.h">>,
  <<1943314,1943314,"xvmskltz.w">>, <<1943315,1943315,"xvmskltz.d">>, <<1943316,1943316,"xvmskgez.b">>, <<1943320,1943320,"xvmsknz.b">>,
  <<1943334,1943334,"xvseteqz.v">>, <<1943335,1943335,"xvsetnez.v">>, <<1943336,1943336,"xvsetanyeqz.b">>, <<1943337,1943337,"xvsetanyeqz.h">>,
  <<1943338,1943338,"xvsetanyeqz.w">>, <<1943339,1943339,"xvsetanyeqz.d">>, <<1943340,1943340,"xvsetallnez.b">>, <<1943341,1943341,"xvsetallnez.h">>,
  <<1943342,1943342,"xvsetallnez.w">>, <<1943343,1943343,"xvsetallnez.d">>, <<1943345,1943345,"xvflogb.s">>, <<1943346,1943346,"xvflogb.d">>,
  <<1943349,1943349,"xvfclass.s">>, <<1943350,1943350,"xvfclass.d">>, <<1943353,1943353,"xvfsqrt.s">>, <<1943354,1943354,"xvfsqrt.d">>,
  <<1943357,1943357,"xvfrecip.s">>, <<1943358,1943358,"xvfrecip.d">>, <<1943361,1943361,"xvfrsqrt.s">>, <<1943362,1943362,"xvfrsqrt.d">>,
  <<1943365,1943365,"xvfrecipe.s">>, <<1943366,1943366,"xvfrecipe.d">>, <<1943369,1943369,"xvfrsqrte.s">>, <<1943370,1943370,"xvfrsqrte.d">>,
  <<1943373,1943373,"xvfrint.s">>, <<1943374,1943374,"xvfrint.d">>, <<1943377,1943377,"xvfrintrm.s">>, <<1943378,1943378,"xvfrintrm.d">>,
  <<1943381,1943381,"xvfrintrp.s">>, <<1943382,1943382,"xvfrintrp.d">>, <<1943385,1943385,"xvfrintrz.s">>, <<1943386,1943386,"xvfrintrz.d">>,
  <<1943389,1943389,"xvfrintrne.s">>, <<1943390,1943390,"xvfrintrne.d">>, <<1943418,1943418,"xvfcvtl.s.h">>, <<1943419,1943419,"xvfcvth.s.h">>,
  <<1943420,1943420,"xvfcvtl.d.s">>, <<1943421,1943421,"xvfcvth.d.s">>, <<1943424,1943424,"xvffint.s.w">>, <<1943425,1943425,"xvffint.s.wu">>,
  <<1943426,1943426,"xvffint.d.l">>, <<1943427,1943427,"xvffint.d.lu">>, <<1943428,1943428,"xvffintl.d.w">>, <<1943429,1943429,"xvffinth.d.w">>,
  <<1943436,1943436,"xvftint.w.s">>, <<1943437,1943437,"xvftint.l.d">>, <<1943438,1943438,"xvftintrm.w.s">>, <<1943439,1943439,"xvftintrm.l.d">>,
  <<1943440,1943440,"xvftintrp.w.s">>, <<1943441,1943441,"xvftintrp.l.d">>, <<1943442,1943442,"xvftintrz.w.s">>, <<1943443,1943443,"xvftintrz.l.d">>,
  <<1943444,1943444,"xvftintrne.w.s">>, <<1943445,1943445,"xvftintrne.l.d">>, <<1943446,1943446,"xvftint.wu.s">>, <<1943447,1943447,"xvftint.lu.d">>,
  <<1943452,1943452,"xvftintrz.wu.s">>, <<1943453,1943453,"xvftintrz.lu.d">>, <<1943456,1943456,"xvftintl.l.s">>, <<1943457,1943457,"xvftinth.l.s">>,
  <<1943458,1943458,"xvftintrml.l.s">>, <<1943459,1943459,"xvftintrmh.l.s">>, <<1943460,1943460,"xvftintrpl.l.s">>,
  <<1943461,1943461,"xvftintrph.l.s">>, <<1943462,1943462,"xvftintrzl.l.s">>, <<1943463,1943463,"xvftintrzh.l.s">>,
  <<1943464,1943464,"xvftintrnel.l.s">>, <<1943465,1943465,"xvftintrneh.l.s">>, <<1943480,1943480,"xvexth.h.b">>, <<1943481,1943481,"xvexth.w.h">>,
  <<1943482,1943482,"xvexth.d.w">>, <<1943483,1943483,"xvexth.q.d">>, <<1943484,1943484,"xvexth.hu.bu">>, <<1943485,1943485,"xvexth.wu.hu">>,
  <<1943486,1943486,"xvexth.du.wu">>, <<1943487,1943487,"xvexth.qu.du">>, <<1943488,1943488,"xvreplgr2vr.b">>, <<1943489,1943489,"xvreplgr2vr.h">>,
  <<1943490,1943490,"xvreplgr2vr.w">>, <<1943491,1943491,"xvreplgr2vr.d">>, <<1943492,1943492,"vext2xv.h.b">>, <<1943493,1943493,"vext2xv.w.b">>,
  <<1943494,1943494,"vext2xv.d.b">>, <<1943495,1943495,"vext2xv.w.h">>, <<1943496,1943496,"vext2xv.d.h">>, <<1943497,1943497,"vext2xv.d.w">>,
  <<1943498,1943498,"vext2xv.hu.bu">>, <<1943499,1943499,"vext2xv.wu.bu">>, <<1943500,1943500,"vext2xv.du.bu">>, <<1943501,1943501,"vext2xv.wu.hu">>,
  <<1943502,1943502,"vext2xv.du.hu">>, <<1943503,1943503,"vext2xv.du.wu">>, <<1943520,1943551,"xvhseli.d">>, <<1943560,1943567,"xvrotri.b">>,
  <<1943568,1943583,"xvrotri.h">>, <<1943584,1943615,"xvrotri.w">>, <<1943616,1943679,"xvrotri.d">>, <<1943816,1943823,"xvsrlri.b">>,
  <<1943824,1943839,"xvsrlri.h">>, <<1943840,1943871,"xvsrlri.w">>, <<1943872,1943935,"xvsrlri.d">>, <<1944072,1944079,"xvsrari.b">>,
  <<1944080,1944095,"xvsrari.h">>, <<1944096,1944127,"xvsrari.w">>, <<1944128,1944191,"xvsrari.d">>, <<1948400,1948407,"xvinsgr2vr.w">>,
  <<1948408,1948411,"xvinsgr2vr.d">>, <<1948656,1948663,"xvpickve2gr.w">>, <<1948664,1948667,"xvpickve2gr.d">>, <<1948912,1948919,"xvpickve2gr.wu">>,
  <<1948920,1948923,"xvpickve2gr.du">>, <<1949152,1949167,"xvrepl128vei.b">>, <<1949168,1949175,"xvrepl128vei.h">>,
  <<1949176,1949179,"xvrepl128vei.w">>, <<1949180,1949181,"xvrepl128vei.d">>, <<1949680,1949687,"xvinsve0.w">>, <<1949688,1949691,"xvinsve0.d">>,
  <<1949936,1949943,"xvpickve.w">>, <<1949944,1949947,"xvpickve.d">>, <<1950144,1950144,"xvreplve0.b">>, <<1950176,1950176,"xvreplve0.h">>,
  <<1950192,1950192,"xvreplve0.w">>, <<1950200,1950200,"xvreplve0.d">>, <<1950204,1950204,"xvreplve0.q">>, <<1950216,1950223,"xvsllwil.h.b">>,
  <<1950224,1950239,"xvsllwil.w.h">>, <<1950240,1950271,"xvsllwil.d.w">>, <<1950272,1950272,"xvextl.q.d">>, <<1950472,1950479,"xvsllwil.hu.bu">>,
  <<1950480,1950495,"xvsllwil.wu.hu">>, <<1950496,1950527,"xvsllwil.du.wu">>, <<1950528,1950528,"xvextl.qu.du">>, <<1950728,1950735,"xvbitclri.b">>,
  <<1950736,1950751,"xvbitclri.h">>, <<1950752,1950783,"xvbitclri.w">>, <<1950784,1950847,"xvbitclri.d">>, <<1950984,1950991,"xvbitseti.b">>,
  <<1950992,1951007,"xvbitseti.h">>, <<1951008,1951039,"xvbitseti.w">>, <<1951040,1951103,"xvbitseti.d">>, <<1951240,1951247,"xvbitrevi.b">>,
  <<1951248,1951263,"xvbitrevi.h">>, <<1951264,1951295,"xvbitrevi.w">>, <<1951296,1951359,"xvbitrevi.d">>, <<1952008,1952015,"xvsat.b">>,
  <<1952016,1952031,"xvsat.h">>, <<1952032,1952063,"xvsat.w">>, <<1952064,1952127,"xvsat.d">>, <<1952264,1952271,"xvsat.bu">>,
  <<1952272,1952287,"xvsat.hu">>, <<1952288,1952319,"xvsat.wu">>, <<1952320,1952383,"xvsat.du">>, <<1952520,1952527,"xvslli.b">>,
  <<1952528,1952543,"xvslli.h">>, <<1952544,1952575,"xvslli.w">>, <<1952576,1952639,"xvslli.d">>, <<1952776,1952783,"xvsrli.b">>,
  <<1952784,1952799,"xvsrli.h">>, <<1952800,1952831,"xvsrli.w">>, <<1952832,1952895,"xvsrli.d">>, <<1953032,1953039,"xvsrai.b">>,
  <<1953040,1953055,"xvsrai.h">>, <<1953056,1953087,"xvsrai.w">>, <<1953088,1953151,"xvsrai.d">>, <<1953808,1953823,"xvsrlni.b.h">>,
  <<1953824,1953855,"xvsrlni.h.w">>, <<1953856,1953919,"xvsrlni.w.d">>, <<1953920,1954047,"xvsrlni.d.q">>, <<1954064,1954079,"xvsrlrni.b.h">>,
  <<1954080,1954111,"xvsrlrni.h.w">>, <<1954112,1954175,"xvsrlrni.w.d">>, <<1954176,1954303,"xvsrlrni.d.q">>, <<1954320,1954335,"xvssrlni.b.h">>,
  <<1954336,1954367,"xvssrlni.h.w">>, <<1954368,1954431,"xvssrlni.w.d">>, <<1954432,1954559,"xvssrlni.d.q">>, <<1954576,1954591,"xvssrlni.bu.h">>,
  <<1954592,1954623,"xvssrlni.hu.w">>, <<1954624,1954687,"xvssrlni.wu.d">>, <<1954688,1954815,"xvssrlni.du.q">>, <<1954832,1954847,"xvssrlrni.b.h">>,
  <<1954848,1954879,"xvssrlrni.h.w">>, <<1954880,1954943,"xvssrlrni.w.d">>, <<1954944,1955071,"xvssrlrni.d.q">>,
  <<1955088,1955103,"xvssrlrni.bu.h">>, <<1955104,1955135,"xvssrlrni.hu.w">>, <<1955136,1955199,"xvssrlrni.wu.d">>,
  <<1955200,1955327,"xvssrlrni.du.q">>, <<1955344,1955359,"xvsrani.b.h">>, <<1955360,1955391,"xvsrani.h.w">>, <<1955392,1955455,"xvsrani.w.d">>,
  <<1955456,1955583,"xvsrani.d.q">>, <<1955600,1955615,"xvsrarni.b.h">>, <<1955616,1955647,"xvsrarni.h.w">>, <<1955648,1955711,"xvsrarni.w.d">>,
  <<1955712,1955839,"xvsrarni.d.q">>, <<1955856,1955871,"xvssrani.b.h">>, <<1955872,1955903,"xvssrani.h.w">>, <<1955904,1955967,"xvssrani.w.d">>,
  <<1955968,1956095,"xvssrani.d.q">>, <<1956112,1956127,"xvssrani.bu.h">>, <<1956128,1956159,"xvssrani.hu.w">>, <<1956160,1956223,"xvssrani.wu.d">>,
  <<1956224,1956351,"xvssrani.du.q">>, <<1956368,1956383,"xvssrarni.b.h">>, <<1956384,1956415,"xvssrarni.h.w">>, <<1956416,1956479,"xvssrarni.w.d">>,
  <<1956480,1956607,"xvssrarni.d.q">>, <<1956624,1956639,"xvssrarni.bu.h">>, <<1956640,1956671,"xvssrarni.hu.w">>,
  <<1956672,1956735,"xvssrarni.wu.d">>, <<1956736,1956863,"xvssrarni.du.q">>, <<1957888,1958143,"xvextrins.d">>, <<1958144,1958399,"xvextrins.w">>,
  <<1958400,1958655,"xvextrins.h">>, <<1958656,1958911,"xvextrins.b">>, <<1958912,1959167,"xvshuf4i.b">>, <<1959168,1959423,"xvshuf4i.h">>,
  <<1959424,1959679,"xvshuf4i.w">>, <<1959680,1959935,"xvshuf4i.d">>, <<1962240,1962495,"xvbitseli.b">>, <<1963008,1963263,"xvandi.b">>,
  <<1963264,1963519,"xvori.b">>, <<1963520,1963775,"xvxori.b">>, <<1963776,1964031,"xvnori.b">>, <<1964032,1964287,"xvldi">>,
  <<1964288,1964543,"xvpermi.w">>, <<1964544,1964799,"xvpermi.d">>, <<1964800,1965055,"xvpermi.q">>
>>
RECURSIVE IsaFind(_, _, _)
\* position of the last entry whose range does not begin after o (0 when none does)
IsaFind(o, a, b) == IF a >= b THEN a ELSE LET mid == (a + b + 1) \div 2 IN IF IsaTable[mid][1] <= o THEN IsaFind(o, mid, b) ELSE IsaFind(o, a, mid - 1)
IsaName(o) == LET i == IsaFind(o, 0, Len(IsaTable)) IN IF i = 0 \/ IsaTable[i][2] < o THEN "reserved" ELSE IsaTable[i][3]
=============================================================================

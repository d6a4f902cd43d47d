// Generated together with spec/Isa.tla: the upper 22 bits of every instruction the vector
// specification models, and its operands: S D X Y registers holding 4, 8, 16, 32 bytes, G general
// register, C condition flag, M address in a general register.
struct IsaOp { const char* name; unsigned lo, hi; const char* fmt; };
static const IsaOp ISA[] = {
	{"fadd.d", 16448, 16479, "DDD"},
	{"fadd.s", 16416, 16447, "SSS"},
	{"fcvt.d.s", 17993, 17993, "DS"},
	{"fcvt.s.d", 17990, 17990, "SD"},
	{"fdiv.d", 16832, 16863, "DDD"},
	{"fdiv.s", 16800, 16831, "SSS"},
	{"ffint.d.l", 18250, 18250, "DD"},
	{"ffint.d.w", 18248, 18248, "DS"},
	{"ffint.s.l", 18246, 18246, "SD"},
	{"ffint.s.w", 18244, 18244, "SS"},
	{"fld.d", 712704, 716799, "DM"},
	{"fld.s", 704512, 708607, "SM"},
	{"fmadd.d", 133120, 134143, "DDDD"},
	{"fmadd.s", 132096, 133119, "SSSS"},
	{"fmax.d", 16960, 16991, "DDD"},
	{"fmax.s", 16928, 16959, "SSS"},
	{"fmin.d", 17088, 17119, "DDD"},
	{"fmin.s", 17056, 17087, "SSS"},
	{"fmsub.d", 137216, 138239, "DDDD"},
	{"fmsub.s", 136192, 137215, "SSSS"},
	{"fmul.d", 16704, 16735, "DDD"},
	{"fmul.s", 16672, 16703, "SSS"},
	{"fnmadd.d", 141312, 142335, "DDDD"},
	{"fnmadd.s", 140288, 141311, "SSSS"},
	{"fnmsub.d", 145408, 146431, "DDDD"},
	{"fnmsub.s", 144384, 145407, "SSSS"},
	{"fst.d", 716800, 720895, "DM"},
	{"fst.s", 708608, 712703, "SM"},
	{"fsub.d", 16576, 16607, "DDD"},
	{"fsub.s", 16544, 16575, "SSS"},
	{"ftintrz.l.d", 18090, 18090, "DD"},
	{"ftintrz.l.s", 18089, 18089, "DS"},
	{"ftintrz.w.d", 18082, 18082, "SD"},
	{"ftintrz.w.s", 18081, 18081, "SS"},
	{"movfr2gr.d", 17710, 17710, "GD"},
	{"movfr2gr.s", 17709, 17709, "GS"},
	{"movgr2fr.d", 17706, 17706, "DG"},
	{"movgr2fr.w", 17705, 17705, "SG"},
	{"vadd.b", 1835648, 1835679, "XXX"},
	{"vadd.d", 1835744, 1835775, "XXX"},
	{"vadd.h", 1835680, 1835711, "XXX"},
	{"vadd.w", 1835712, 1835743, "XXX"},
	{"vaddi.bu", 1876608, 1876639, "XX"},
	{"vaddi.du", 1876704, 1876735, "XX"},
	{"vaddi.hu", 1876640, 1876671, "XX"},
	{"vaddi.wu", 1876672, 1876703, "XX"},
	{"vand.v", 1853824, 1853855, "XXX"},
	{"vbitrevi.d", 1885760, 1885823, "XX"},
	{"vbitsel.v", 214016, 215039, "XXXX"},
	{"vfadd.d", 1854528, 1854559, "XXX"},
	{"vfcmp.caf.d", 202752, 202783, "XXX"},
	{"vfcmp.ceq.d", 202880, 202911, "XXX"},
	{"vfcmp.cle.d", 202944, 202975, "XXX"},
	{"vfcmp.clt.d", 202816, 202847, "XXX"},
	{"vfcmp.cne.d", 203264, 203295, "XXX"},
	{"vfcmp.cor.d", 203392, 203423, "XXX"},
	{"vfcmp.cueq.d", 203136, 203167, "XXX"},
	{"vfcmp.cule.d", 203200, 203231, "XXX"},
	{"vfcmp.cult.d", 203072, 203103, "XXX"},
	{"vfcmp.cun.d", 203008, 203039, "XXX"},
	{"vfcmp.cune.d", 203520, 203551, "XXX"},
	{"vfcmp.saf.d", 202784, 202815, "XXX"},
	{"vfcmp.seq.d", 202912, 202943, "XXX"},
	{"vfcmp.sle.d", 202976, 203007, "XXX"},
	{"vfcmp.slt.d", 202848, 202879, "XXX"},
	{"vfcmp.sne.d", 203296, 203327, "XXX"},
	{"vfcmp.sor.d", 203424, 203455, "XXX"},
	{"vfcmp.sueq.d", 203168, 203199, "XXX"},
	{"vfcmp.sule.d", 203232, 203263, "XXX"},
	{"vfcmp.sult.d", 203104, 203135, "XXX"},
	{"vfcmp.sun.d", 203040, 203071, "XXX"},
	{"vfcmp.sune.d", 203552, 203583, "XXX"},
	{"vfdiv.d", 1855168, 1855199, "XXX"},
	{"vfmadd.d", 149504, 150527, "XXXX"},
	{"vfmul.d", 1855040, 1855071, "XXX"},
	{"vfmul.s", 1855008, 1855039, "XXX"},
	{"vfnmadd.d", 157696, 158719, "XXXX"},
	{"vfrstpi.b", 1877632, 1877663, "XX"},
	{"vftintrz.l.d", 1877907, 1877907, "XX"},
	{"vftintrz.w.s", 1877906, 1877906, "XX"},
	{"vhaddw.d.w", 1840448, 1840479, "XXX"},
	{"vilvh.d", 1853280, 1853311, "XXX"},
	{"vilvl.b", 1853056, 1853087, "XXX"},
	{"vilvl.d", 1853152, 1853183, "XXX"},
	{"vilvl.h", 1853088, 1853119, "XXX"},
	{"vilvl.w", 1853120, 1853151, "XXX"},
	{"vinsgr2vr.b", 1882848, 1882863, "XG"},
	{"vinsgr2vr.d", 1882876, 1882877, "XG"},
	{"vinsgr2vr.h", 1882864, 1882871, "XG"},
	{"vinsgr2vr.w", 1882872, 1882875, "XG"},
	{"vld", 720896, 724991, "XM"},
	{"vldi", 1898496, 1898751, "X"},
	{"vldx", 921600, 921631, "XMG"},
	{"vmadd.b", 1845760, 1845791, "XXX"},
	{"vmadd.d", 1845856, 1845887, "XXX"},
	{"vmadd.h", 1845792, 1845823, "XXX"},
	{"vmadd.w", 1845824, 1845855, "XXX"},
	{"vmax.b", 1842176, 1842207, "XXX"},
	{"vmax.bu", 1842432, 1842463, "XXX"},
	{"vmax.d", 1842272, 1842303, "XXX"},
	{"vmax.du", 1842528, 1842559, "XXX"},
	{"vmax.h", 1842208, 1842239, "XXX"},
	{"vmax.hu", 1842464, 1842495, "XXX"},
	{"vmax.w", 1842240, 1842271, "XXX"},
	{"vmax.wu", 1842496, 1842527, "XXX"},
	{"vmin.b", 1842304, 1842335, "XXX"},
	{"vmin.bu", 1842560, 1842591, "XXX"},
	{"vmin.d", 1842400, 1842431, "XXX"},
	{"vmin.du", 1842656, 1842687, "XXX"},
	{"vmin.h", 1842336, 1842367, "XXX"},
	{"vmin.hu", 1842592, 1842623, "XXX"},
	{"vmin.w", 1842368, 1842399, "XXX"},
	{"vmin.wu", 1842624, 1842655, "XXX"},
	{"vmsknz.b", 1877784, 1877784, "XX"},
	{"vmul.b", 1843456, 1843487, "XXX"},
	{"vmul.d", 1843552, 1843583, "XXX"},
	{"vmul.h", 1843488, 1843519, "XXX"},
	{"vmul.w", 1843520, 1843551, "XXX"},
	{"vnor.v", 1853920, 1853951, "XXX"},
	{"vor.v", 1853856, 1853887, "XXX"},
	{"vori.b", 1897728, 1897983, "XX"},
	{"vorn.v", 1853984, 1854015, "XXX"},
	{"vpcnt.b", 1877768, 1877768, "XX"},
	{"vpcnt.d", 1877771, 1877771, "XX"},
	{"vpcnt.h", 1877769, 1877769, "XX"},
	{"vpcnt.w", 1877770, 1877770, "XX"},
	{"vpickev.w", 1853376, 1853407, "XXX"},
	{"vpickve2gr.b", 1883104, 1883119, "GX"},
	{"vpickve2gr.bu", 1883360, 1883375, "GX"},
	{"vpickve2gr.d", 1883132, 1883133, "GX"},
	{"vpickve2gr.du", 1883388, 1883389, "GX"},
	{"vpickve2gr.h", 1883120, 1883127, "GX"},
	{"vpickve2gr.hu", 1883376, 1883383, "GX"},
	{"vpickve2gr.w", 1883128, 1883131, "GX"},
	{"vpickve2gr.wu", 1883384, 1883387, "GX"},
	{"vreplgr2vr.b", 1877952, 1877952, "XG"},
	{"vreplgr2vr.d", 1877955, 1877955, "XG"},
	{"vreplgr2vr.h", 1877953, 1877953, "XG"},
	{"vreplgr2vr.w", 1877954, 1877954, "XG"},
	{"vreplvei.d", 1883644, 1883645, "XX"},
	{"vseq.b", 1835008, 1835039, "XXX"},
	{"vseqi.b", 1875968, 1875999, "XX"},
	{"vseqi.d", 1876064, 1876095, "XX"},
	{"vseqi.h", 1876000, 1876031, "XX"},
	{"vseqi.w", 1876032, 1876063, "XX"},
	{"vsetallnez.b", 1877804, 1877804, "CX"},
	{"vsetanyeqz.b", 1877800, 1877800, "CX"},
	{"vshuf.b", 218112, 219135, "XXXX"},
	{"vslli.b", 1886984, 1886991, "XX"},
	{"vslli.d", 1887040, 1887103, "XX"},
	{"vslli.h", 1886992, 1887007, "XX"},
	{"vslli.w", 1887008, 1887039, "XX"},
	{"vslt.b", 1835392, 1835423, "XXX"},
	{"vslt.d", 1835488, 1835519, "XXX"},
	{"vslt.h", 1835424, 1835455, "XXX"},
	{"vslt.w", 1835456, 1835487, "XXX"},
	{"vst", 724992, 729087, "XM"},
	{"vstx", 921856, 921887, "XMG"},
	{"vsub.b", 1835776, 1835807, "XXX"},
	{"vsub.d", 1835872, 1835903, "XXX"},
	{"vsub.h", 1835808, 1835839, "XXX"},
	{"vsub.w", 1835840, 1835871, "XXX"},
	{"vxor.v", 1853888, 1853919, "XXX"},
	{"xvadd.d", 1901280, 1901311, "YYY"},
	{"xvbitrevi.d", 1951296, 1951359, "YY"},
	{"xvbitsel.v", 215040, 216063, "YYYY"},
	{"xvfadd.d", 1920064, 1920095, "YYY"},
	{"xvfcmp.caf.d", 206848, 206879, "YYY"},
	{"xvfcmp.ceq.d", 206976, 207007, "YYY"},
	{"xvfcmp.cle.d", 207040, 207071, "YYY"},
	{"xvfcmp.clt.d", 206912, 206943, "YYY"},
	{"xvfcmp.cne.d", 207360, 207391, "YYY"},
	{"xvfcmp.cor.d", 207488, 207519, "YYY"},
	{"xvfcmp.cueq.d", 207232, 207263, "YYY"},
	{"xvfcmp.cule.d", 207296, 207327, "YYY"},
	{"xvfcmp.cult.d", 207168, 207199, "YYY"},
	{"xvfcmp.cun.d", 207104, 207135, "YYY"},
	{"xvfcmp.cune.d", 207616, 207647, "YYY"},
	{"xvfcmp.saf.d", 206880, 206911, "YYY"},
	{"xvfcmp.seq.d", 207008, 207039, "YYY"},
	{"xvfcmp.sle.d", 207072, 207103, "YYY"},
	{"xvfcmp.slt.d", 206944, 206975, "YYY"},
	{"xvfcmp.sne.d", 207392, 207423, "YYY"},
	{"xvfcmp.sor.d", 207520, 207551, "YYY"},
	{"xvfcmp.sueq.d", 207264, 207295, "YYY"},
	{"xvfcmp.sule.d", 207328, 207359, "YYY"},
	{"xvfcmp.sult.d", 207200, 207231, "YYY"},
	{"xvfcmp.sun.d", 207136, 207167, "YYY"},
	{"xvfcmp.sune.d", 207648, 207679, "YYY"},
	{"xvfdiv.d", 1920704, 1920735, "YYY"},
	{"xvfmadd.d", 165888, 166911, "YYYY"},
	{"xvfmadd.s", 164864, 165887, "YYYY"},
	{"xvfmsub.d", 169984, 171007, "YYYY"},
	{"xvfmsub.s", 168960, 169983, "YYYY"},
	{"xvfmul.d", 1920576, 1920607, "YYY"},
	{"xvfnmadd.d", 174080, 175103, "YYYY"},
	{"xvfnmadd.s", 173056, 174079, "YYYY"},
	{"xvfnmsub.d", 178176, 179199, "YYYY"},
	{"xvfnmsub.s", 177152, 178175, "YYYY"},
	{"xvfsub.d", 1920192, 1920223, "YYY"},
	{"xvhaddw.d.w", 1905984, 1906015, "YYY"},
	{"xvhaddw.q.d", 1906016, 1906047, "YYY"},
	{"xvilvh.d", 1918816, 1918847, "YYY"},
	{"xvilvl.d", 1918688, 1918719, "YYY"},
	{"xvld", 729088, 733183, "YM"},
	{"xvldi", 1964032, 1964287, "Y"},
	{"xvldx", 922112, 922143, "YMG"},
	{"xvmax.bu", 1907968, 1907999, "YYY"},
	{"xvmin.bu", 1908096, 1908127, "YYY"},
	{"xvmsknz.b", 1943320, 1943320, "YY"},
	{"xvori.b", 1963264, 1963519, "YY"},
	{"xvpackev.d", 1918432, 1918463, "YYY"},
	{"xvpackod.d", 1918560, 1918591, "YYY"},
	{"xvpermi.d", 1964544, 1964799, "YY"},
	{"xvpermi.q", 1964800, 1965055, "YY"},
	{"xvpickev.d", 1918944, 1918975, "YYY"},
	{"xvpickev.w", 1918912, 1918943, "YYY"},
	{"xvpickod.d", 1919072, 1919103, "YYY"},
	{"xvpickve.w", 1949936, 1949943, "YY"},
	{"xvpickve2gr.w", 1948656, 1948663, "GY"},
	{"xvreplgr2vr.b", 1943488, 1943488, "YG"},
	{"xvreplve.d", 1919200, 1919231, "YYG"},
	{"xvseq.b", 1900544, 1900575, "YYY"},
	{"xvsetanyeqz.b", 1943336, 1943336, "CY"},
	{"xvseteqz.v", 1943334, 1943334, "CY"},
	{"xvst", 733184, 737279, "YM"},
	{"xvstx", 922368, 922399, "YMG"},
	{"xvsub.w", 1901376, 1901407, "YYY"},
	{"xvxor.v", 1919424, 1919455, "YYY"},
	{"xvxori.b", 1963520, 1963775, "YY"},
};

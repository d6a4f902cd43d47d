// Generated together with spec/Isa.tla: every range of upper 22 bits that is assigned an instruction.
struct IsaName { unsigned lo, hi; };
static const IsaName ISANAMES[] = {
	{2,2},{3,3},{4,4},{5,5},{6,6},{7,7},{8,8},{9,9},{10,10},{11,11},{12,12},{13,13},{14,14},{15,15},{16,16},{17,17},{18,18},{19,19},{20,20},{21,21},
	{22,22},{23,23},{24,24},{25,25},{26,26},{27,27},{30,30},{31,31},{32,32},{256,383},{384,511},{512,639},{768,1023},{1024,1055},{1056,1087},{1088,1119},
	{1120,1151},{1152,1183},{1184,1215},{1216,1247},{1248,1279},{1280,1311},{1312,1343},{1344,1375},{1376,1407},{1408,1439},{1440,1471},{1472,1503},
	{1504,1535},{1536,1567},{1568,1599},{1600,1631},{1632,1663},{1664,1695},{1696,1727},{1728,1759},{1760,1791},{1792,1823},{1824,1855},{1856,1887},
	{1888,1919},{1920,1951},{1952,1983},{1984,2015},{2016,2047},{2048,2079},{2080,2111},{2112,2143},{2144,2175},{2176,2207},{2208,2239},{2240,2271},
	{2272,2303},{2304,2335},{2336,2367},{2368,2399},{2400,2431},{2432,2463},{2464,2495},{2496,2527},{2528,2559},{2624,2655},{2656,2687},{2688,2719},
	{2720,2751},{2752,2783},{2784,2815},{2816,2943},{3072,3103},{3104,3135},{3136,3167},{3168,3199},{3200,3231},{3232,3263},{3264,3295},{3296,3327},
	{3328,3359},{3360,3391},{3392,3423},{3424,3455},{3472,3487},{4000,4031},{4032,4063},{4064,4095},{4128,4159},{4160,4223},{4384,4415},{4416,4479},
	{4640,4671},{4672,4735},{4872,4879},{4880,4895},{4896,4927},{4928,4991},{5128,5135},{5136,5151},{5152,5183},{5184,5247},{5392,5407},{5632,5887},
	{5888,6143},{6144,6175},{6176,6207},{6208,6239},{6240,6271},{6272,6303},{6304,6335},{6336,6367},{6368,6399},{6400,6431},{6432,6463},{6464,6495},
	{6496,6527},{6528,6559},{6560,6591},{6592,6623},{6624,6655},{6656,6687},{6688,6719},{6720,6751},{6752,6783},{6784,6815},{6816,6847},{6848,6879},
	{6880,6911},{6912,6943},{6944,6975},{6976,7007},{7008,7039},{7040,7071},{7072,7103},{7104,7135},{7136,7167},{7168,7199},{7200,7231},{7232,7263},
	{7264,7295},{7296,7327},{7328,7359},{7360,7391},{7392,7423},{7424,7455},{7456,7487},{7488,7519},{7520,7551},{7552,7583},{7584,7615},{7616,7647},
	{7648,7679},{7680,7711},{7712,7743},{7744,7775},{7776,7807},{7808,7839},{7840,7871},{7872,7903},{7904,7935},{7936,7967},{7968,7999},{8000,8031},
	{8032,8063},{8064,8095},{8096,8127},{8128,8159},{8160,8191},{8192,12287},{12288,16383},{16416,16447},{16448,16479},{16544,16575},{16576,16607},
	{16672,16703},{16704,16735},{16800,16831},{16832,16863},{16928,16959},{16960,16991},{17056,17087},{17088,17119},{17184,17215},{17216,17247},
	{17312,17343},{17344,17375},{17440,17471},{17472,17503},{17568,17599},{17600,17631},{17665,17665},{17666,17666},{17669,17669},{17670,17670},
	{17673,17673},{17674,17674},{17677,17677},{17678,17678},{17681,17681},{17682,17682},{17685,17685},{17686,17686},{17689,17689},{17690,17690},
	{17693,17693},{17694,17694},{17697,17697},{17698,17698},{17701,17701},{17702,17702},{17705,17705},{17706,17706},{17707,17707},{17709,17709},
	{17710,17710},{17711,17711},{17712,17712},{17714,17714},{17716,17716},{17717,17717},{17718,17718},{17719,17719},{17720,17720},{17721,17721},
	{17728,17759},{17990,17990},{17993,17993},{18049,18049},{18050,18050},{18057,18057},{18058,18058},{18065,18065},{18066,18066},{18073,18073},
	{18074,18074},{18081,18081},{18082,18082},{18089,18089},{18090,18090},{18097,18097},{18098,18098},{18105,18105},{18106,18106},{18113,18113},
	{18114,18114},{18121,18121},{18122,18122},{18244,18244},{18246,18246},{18248,18248},{18250,18250},{18321,18321},{18322,18322},{32768,36863},
	{36864,40959},{40960,45055},{45056,49151},{49152,53247},{53248,57343},{57344,61439},{61440,65535},{65536,81919},{81920,98303},{98304,102399},
	{102400,102655},{102912,102912},{102913,102913},{102914,102914},{102915,102915},{102916,102916},{102917,102917},{102918,102918},{102919,102919},
	{102944,102975},{103008,103039},{132096,133119},{133120,134143},{136192,137215},{137216,138239},{140288,141311},{141312,142335},{144384,145407},
	{145408,146431},{148480,149503},{149504,150527},{152576,153599},{153600,154623},{156672,157695},{157696,158719},{160768,161791},{161792,162815},
	{164864,165887},{165888,166911},{168960,169983},{169984,171007},{173056,174079},{174080,175103},{177152,178175},{178176,179199},{197632,197663},
	{197664,197695},{197696,197727},{197728,197759},{197760,197791},{197792,197823},{197824,197855},{197856,197887},{197888,197919},{197920,197951},
	{197952,197983},{197984,198015},{198016,198047},{198048,198079},{198080,198111},{198112,198143},{198144,198175},{198176,198207},{198272,198303},
	{198304,198335},{198400,198431},{198432,198463},{198656,198687},{198688,198719},{198720,198751},{198752,198783},{198784,198815},{198816,198847},
	{198848,198879},{198880,198911},{198912,198943},{198944,198975},{198976,199007},{199008,199039},{199040,199071},{199072,199103},{199104,199135},
	{199136,199167},{199168,199199},{199200,199231},{199296,199327},{199328,199359},{199424,199455},{199456,199487},{201728,201759},{201760,201791},
	{201792,201823},{201824,201855},{201856,201887},{201888,201919},{201920,201951},{201952,201983},{201984,202015},{202016,202047},{202048,202079},
	{202080,202111},{202112,202143},{202144,202175},{202176,202207},{202208,202239},{202240,202271},{202272,202303},{202368,202399},{202400,202431},
	{202496,202527},{202528,202559},{202752,202783},{202784,202815},{202816,202847},{202848,202879},{202880,202911},{202912,202943},{202944,202975},
	{202976,203007},{203008,203039},{203040,203071},{203072,203103},{203104,203135},{203136,203167},{203168,203199},{203200,203231},{203232,203263},
	{203264,203295},{203296,203327},{203392,203423},{203424,203455},{203520,203551},{203552,203583},{205824,205855},{205856,205887},{205888,205919},
	{205920,205951},{205952,205983},{205984,206015},{206016,206047},{206048,206079},{206080,206111},{206112,206143},{206144,206175},{206176,206207},
	{206208,206239},{206240,206271},{206272,206303},{206304,206335},{206336,206367},{206368,206399},{206464,206495},{206496,206527},{206592,206623},
	{206624,206655},{206848,206879},{206880,206911},{206912,206943},{206944,206975},{206976,207007},{207008,207039},{207040,207071},{207072,207103},
	{207104,207135},{207136,207167},{207168,207199},{207200,207231},{207232,207263},{207264,207295},{207296,207327},{207328,207359},{207360,207391},
	{207392,207423},{207488,207519},{207520,207551},{207616,207647},{207648,207679},{212992,213247},{214016,215039},{215040,216063},{218112,219135},
	{219136,220159},{262144,327679},{327680,360447},{360448,393215},{393216,425983},{425984,458751},{458752,491519},{491520,524287},{524288,540671},
	{540672,557055},{557056,573439},{573440,589823},{589824,606207},{606208,622591},{622592,638975},{638976,655359},{655360,659455},{659456,663551},
	{663552,667647},{667648,671743},{671744,675839},{675840,679935},{679936,684031},{684032,688127},{688128,692223},{692224,696319},{696320,700415},
	{700416,704511},{704512,708607},{708608,712703},{712704,716799},{716800,720895},{720896,724991},{724992,729087},{729088,733183},{733184,737279},
	{753664,757759},{757760,761855},{761856,765951},{765952,770047},{770048,774143},{774144,778239},{778240,782335},{782336,786431},{787456,787967},
	{788480,789503},{790528,792575},{794624,798719},{803840,804351},{804864,805887},{806912,808959},{811008,815103},{820224,820735},{821248,822271},
	{823296,825343},{827392,831487},{836608,837631},{837632,839679},{839680,843775},{843776,851967},{917504,917535},{917760,917791},{918016,918047},
	{918272,918303},{918528,918559},{918784,918815},{919040,919071},{919296,919327},{919552,919583},{919808,919839},{920064,920095},{920320,920351},
	{920576,920607},{920832,920863},{921088,921119},{921344,921375},{921600,921631},{921856,921887},{922112,922143},{922368,922399},{923072,923103},
	{923104,923104},{923105,923105},{923106,923106},{923107,923107},{923136,923167},{923168,923199},{923200,923231},{923232,923263},{923264,923295},
	{923296,923327},{923328,923359},{923360,923391},{923392,923423},{923424,923455},{923456,923487},{923488,923519},{923520,923551},{923552,923583},
	{923584,923615},{923616,923647},{923648,923679},{923680,923711},{923712,923743},{923744,923775},{923776,923807},{923808,923839},{923840,923871},
	{923872,923903},{923904,923935},{923936,923967},{923968,923999},{924000,924031},{924032,924063},{924064,924095},{924096,924127},{924128,924159},
	{924160,924191},{924192,924223},{924224,924255},{924256,924287},{924288,924319},{924320,924351},{924352,924383},{924384,924415},{924416,924447},
	{924448,924479},{924480,924511},{924512,924543},{924544,924575},{924576,924607},{924608,924639},{924640,924671},{924672,924703},{924704,924735},
	{924736,924767},{924768,924799},{924800,924831},{924832,924863},{924928,924959},{924960,924991},{924992,925023},{925024,925055},{925056,925087},
	{925088,925119},{925120,925151},{925152,925183},{925184,925215},{925216,925247},{925248,925279},{925280,925311},{925312,925343},{925344,925375},
	{925376,925407},{925408,925439},{925440,925471},{925472,925503},{925504,925535},{925536,925567},{925568,925599},{925600,925631},{925632,925663},
	{925664,925695},{1048576,1114111},{1114112,1179647},{1179648,1245183},{1245184,1310719},{1310720,1376255},{1376256,1441791},{1441792,1507327},
	{1507328,1572863},{1572864,1638399},{1638400,1703935},{1703936,1769471},{1769472,1835007},{1835008,1835039},{1835040,1835071},{1835072,1835103},
	{1835104,1835135},{1835136,1835167},{1835168,1835199},{1835200,1835231},{1835232,1835263},{1835264,1835295},{1835296,1835327},{1835328,1835359},
	{1835360,1835391},{1835392,1835423},{1835424,1835455},{1835456,1835487},{1835488,1835519},{1835520,1835551},{1835552,1835583},{1835584,1835615},
	{1835616,1835647},{1835648,1835679},{1835680,1835711},{1835712,1835743},{1835744,1835775},{1835776,1835807},{1835808,1835839},{1835840,1835871},
	{1835872,1835903},{1836928,1836959},{1836960,1836991},{1836992,1837023},{1837024,1837055},{1837056,1837087},{1837088,1837119},{1837120,1837151},
	{1837152,1837183},{1837184,1837215},{1837216,1837247},{1837248,1837279},{1837280,1837311},{1837312,1837343},{1837344,1837375},{1837376,1837407},
	{1837408,1837439},{1837952,1837983},{1837984,1838015},{1838016,1838047},{1838048,1838079},{1838080,1838111},{1838112,1838143},{1838144,1838175},
	{1838176,1838207},{1838208,1838239},{1838240,1838271},{1838272,1838303},{1838304,1838335},{1838336,1838367},{1838368,1838399},{1838400,1838431},
	{1838432,1838463},{1838976,1839007},{1839008,1839039},{1839040,1839071},{1839072,1839103},{1839104,1839135},{1839136,1839167},{1839168,1839199},
	{1839200,1839231},{1839488,1839519},{1839520,1839551},{1839552,1839583},{1839584,1839615},{1839616,1839647},{1839648,1839679},{1839680,1839711},
	{1839712,1839743},{1839744,1839775},{1839776,1839807},{1839808,1839839},{1839840,1839871},{1839872,1839903},{1839904,1839935},{1839936,1839967},
	{1839968,1839999},{1840384,1840415},{1840416,1840447},{1840448,1840479},{1840480,1840511},{1840512,1840543},{1840544,1840575},{1840576,1840607},
	{1840608,1840639},{1840640,1840671},{1840672,1840703},{1840704,1840735},{1840736,1840767},{1840768,1840799},{1840800,1840831},{1840832,1840863},
	{1840864,1840895},{1840896,1840927},{1840928,1840959},{1840960,1840991},{1840992,1841023},{1841152,1841183},{1841184,1841215},{1841216,1841247},
	{1841248,1841279},{1841280,1841311},{1841312,1841343},{1841344,1841375},{1841376,1841407},{1841408,1841439},{1841440,1841471},{1841472,1841503},
	{1841504,1841535},{1841536,1841567},{1841568,1841599},{1841600,1841631},{1841632,1841663},{1841664,1841695},{1841696,1841727},{1841728,1841759},
	{1841760,1841791},{1841792,1841823},{1841824,1841855},{1841856,1841887},{1841888,1841919},{1842176,1842207},{1842208,1842239},{1842240,1842271},
	{1842272,1842303},{1842304,1842335},{1842336,1842367},{1842368,1842399},{1842400,1842431},{1842432,1842463},{1842464,1842495},{1842496,1842527},
	{1842528,1842559},{1842560,1842591},{1842592,1842623},{1842624,1842655},{1842656,1842687},{1843456,1843487},{1843488,1843519},{1843520,1843551},
	{1843552,1843583},{1843584,1843615},{1843616,1843647},{1843648,1843679},{1843680,1843711},{1843712,1843743},{1843744,1843775},{1843776,1843807},
	{1843808,1843839},{1844224,1844255},{1844256,1844287},{1844288,1844319},{1844320,1844351},{1844352,1844383},{1844384,1844415},{1844416,1844447},
	{1844448,1844479},{1844736,1844767},{1844768,1844799},{1844800,1844831},{1844832,1844863},{1844864,1844895},{1844896,1844927},{1844928,1844959},
	{1844960,1844991},{1845248,1845279},{1845280,1845311},{1845312,1845343},{1845344,1845375},{1845376,1845407},{1845408,1845439},{1845440,1845471},
	{1845472,1845503},{1845760,1845791},{1845792,1845823},{1845824,1845855},{1845856,1845887},{1845888,1845919},{1845920,1845951},{1845952,1845983},
	{1845984,1846015},{1846016,1846047},{1846048,1846079},{1846080,1846111},{1846112,1846143},{1846144,1846175},{1846176,1846207},{1846208,1846239},
	{1846240,1846271},{1846528,1846559},{1846560,1846591},{1846592,1846623},{1846624,1846655},{1846656,1846687},{1846688,1846719},{1846720,1846751},
	{1846752,1846783},{1847040,1847071},{1847072,1847103},{1847104,1847135},{1847136,1847167},{1847168,1847199},{1847200,1847231},{1847232,1847263},
	{1847264,1847295},{1849344,1849375},{1849376,1849407},{1849408,1849439},{1849440,1849471},{1849472,1849503},{1849504,1849535},{1849536,1849567},
	{1849568,1849599},{1849600,1849631},{1849632,1849663},{1849664,1849695},{1849696,1849727},{1849728,1849759},{1849760,1849791},{1849792,1849823},
	{1849824,1849855},{1849856,1849887},{1849888,1849919},{1849920,1849951},{1849952,1849983},{1849984,1850015},{1850016,1850047},{1850048,1850079},
	{1850080,1850111},{1850112,1850143},{1850144,1850175},{1850176,1850207},{1850208,1850239},{1850240,1850271},{1850272,1850303},{1850304,1850335},
	{1850336,1850367},{1850368,1850399},{1850400,1850431},{1850432,1850463},{1850464,1850495},{1850496,1850527},{1850528,1850559},{1850560,1850591},
	{1850592,1850623},{1850656,1850687},{1850688,1850719},{1850720,1850751},{1850784,1850815},{1850816,1850847},{1850848,1850879},{1850912,1850943},
	{1850944,1850975},{1850976,1851007},{1851040,1851071},{1851072,1851103},{1851104,1851135},{1851168,1851199},{1851200,1851231},{1851232,1851263},
	{1851296,1851327},{1851328,1851359},{1851360,1851391},{1851424,1851455},{1851456,1851487},{1851488,1851519},{1851552,1851583},{1851584,1851615},
	{1851616,1851647},{1851680,1851711},{1851712,1851743},{1851744,1851775},{1851808,1851839},{1851840,1851871},{1851872,1851903},{1851936,1851967},
	{1851968,1851999},{1852000,1852031},{1852064,1852095},{1852096,1852127},{1852128,1852159},{1852160,1852191},{1852192,1852223},{1852224,1852255},
	{1852256,1852287},{1852288,1852319},{1852320,1852351},{1852352,1852383},{1852384,1852415},{1852416,1852447},{1852448,1852479},{1852480,1852511},
	{1852512,1852543},{1852800,1852831},{1852832,1852863},{1852864,1852895},{1852896,1852927},{1852928,1852959},{1852960,1852991},{1852992,1853023},
	{1853024,1853055},{1853056,1853087},{1853088,1853119},{1853120,1853151},{1853152,1853183},{1853184,1853215},{1853216,1853247},{1853248,1853279},
	{1853280,1853311},{1853312,1853343},{1853344,1853375},{1853376,1853407},{1853408,1853439},{1853440,1853471},{1853472,1853503},{1853504,1853535},
	{1853536,1853567},{1853568,1853599},{1853600,1853631},{1853632,1853663},{1853664,1853695},{1853824,1853855},{1853856,1853887},{1853888,1853919},
	{1853920,1853951},{1853952,1853983},{1853984,1854015},{1854144,1854175},{1854176,1854207},{1854272,1854303},{1854304,1854335},{1854336,1854367},
	{1854368,1854399},{1854400,1854431},{1854432,1854463},{1854496,1854527},{1854528,1854559},{1854624,1854655},{1854656,1854687},{1855008,1855039},
	{1855040,1855071},{1855136,1855167},{1855168,1855199},{1855264,1855295},{1855296,1855327},{1855392,1855423},{1855424,1855455},{1855520,1855551},
	{1855552,1855583},{1855648,1855679},{1855680,1855711},{1855872,1855903},{1855904,1855935},{1856000,1856031},{1856096,1856127},{1856128,1856159},
	{1856160,1856191},{1856192,1856223},{1856224,1856255},{1859232,1859263},{1859264,1859295},{1859296,1859327},{1875968,1875999},{1876000,1876031},
	{1876032,1876063},{1876064,1876095},{1876096,1876127},{1876128,1876159},{1876160,1876191},{1876192,1876223},{1876224,1876255},{1876256,1876287},
	{1876288,1876319},{1876320,1876351},{1876352,1876383},{1876384,1876415},{1876416,1876447},{1876448,1876479},{1876480,1876511},{1876512,1876543},
	{1876544,1876575},{1876576,1876607},{1876608,1876639},{1876640,1876671},{1876672,1876703},{1876704,1876735},{1876736,1876767},{1876768,1876799},
	{1876800,1876831},{1876832,1876863},{1876864,1876895},{1876896,1876927},{1876992,1877023},{1877024,1877055},{1877056,1877087},{1877088,1877119},
	{1877120,1877151},{1877152,1877183},{1877184,1877215},{1877216,1877247},{1877248,1877279},{1877280,1877311},{1877312,1877343},{1877344,1877375},
	{1877376,1877407},{1877408,1877439},{1877440,1877471},{1877472,1877503},{1877632,1877663},{1877664,1877695},{1877760,1877760},{1877761,1877761},
	{1877762,1877762},{1877763,1877763},{1877764,1877764},{1877765,1877765},{1877766,1877766},{1877767,1877767},{1877768,1877768},{1877769,1877769},
	{1877770,1877770},{1877771,1877771},{1877772,1877772},{1877773,1877773},{1877774,1877774},{1877775,1877775},{1877776,1877776},{1877777,1877777},
	{1877778,1877778},{1877779,1877779},{1877780,1877780},{1877784,1877784},{1877798,1877798},{1877799,1877799},{1877800,1877800},{1877801,1877801},
	{1877802,1877802},{1877803,1877803},{1877804,1877804},{1877805,1877805},{1877806,1877806},{1877807,1877807},{1877809,1877809},{1877810,1877810},
	{1877813,1877813},{1877814,1877814},{1877817,1877817},{1877818,1877818},{1877821,1877821},{1877822,1877822},{1877825,1877825},{1877826,1877826},
	{1877829,1877829},{1877830,1877830},{1877833,1877833},{1877834,1877834},{1877837,1877837},{1877838,1877838},{1877841,1877841},{1877842,1877842},
	{1877845,1877845},{1877846,1877846},{1877849,1877849},{1877850,1877850},{1877853,1877853},{1877854,1877854},{1877882,1877882},{1877883,1877883},
	{1877884,1877884},{1877885,1877885},{1877888,1877888},{1877889,1877889},{1877890,1877890},{1877891,1877891},{1877892,1877892},{1877893,1877893},
	{1877900,1877900},{1877901,1877901},{1877902,1877902},{1877903,1877903},{1877904,1877904},{1877905,1877905},{1877906,1877906},{1877907,1877907},
	{1877908,1877908},{1877909,1877909},{1877910,1877910},{1877911,1877911},{1877916,1877916},{1877917,1877917},{1877920,1877920},{1877921,1877921},
	{1877922,1877922},{1877923,1877923},{1877924,1877924},{1877925,1877925},{1877926,1877926},{1877927,1877927},{1877928,1877928},{1877929,1877929},
	{1877944,1877944},{1877945,1877945},{1877946,1877946},{1877947,1877947},{1877948,1877948},{1877949,1877949},{1877950,1877950},{1877951,1877951},
	{1877952,1877952},{1877953,1877953},{1877954,1877954},{1877955,1877955},{1878024,1878031},{1878032,1878047},{1878048,1878079},{1878080,1878143},
	{1878280,1878287},{1878288,1878303},{1878304,1878335},{1878336,1878399},{1878536,1878543},{1878544,1878559},{1878560,1878591},{1878592,1878655},
	{1882848,1882863},{1882864,1882871},{1882872,1882875},{1882876,1882877},{1883104,1883119},{1883120,1883127},{1883128,1883131},{1883132,1883133},
	{1883360,1883375},{1883376,1883383},{1883384,1883387},{1883388,1883389},{1883616,1883631},{1883632,1883639},{1883640,1883643},{1883644,1883645},
	{1884680,1884687},{1884688,1884703},{1884704,1884735},{1884736,1884736},{1884936,1884943},{1884944,1884959},{1884960,1884991},{1884992,1884992},
	{1885192,1885199},{1885200,1885215},{1885216,1885247},{1885248,1885311},{1885448,1885455},{1885456,1885471},{1885472,1885503},{1885504,1885567},
	{1885704,1885711},{1885712,1885727},{1885728,1885759},{1885760,1885823},{1886472,1886479},{1886480,1886495},{1886496,1886527},{1886528,1886591},
	{1886728,1886735},{1886736,1886751},{1886752,1886783},{1886784,1886847},{1886984,1886991},{1886992,1887007},{1887008,1887039},{1887040,1887103},
	{1887240,1887247},{1887248,1887263},{1887264,1887295},{1887296,1887359},{1887496,1887503},{1887504,1887519},{1887520,1887551},{1887552,1887615},
	{1888272,1888287},{1888288,1888319},{1888320,1888383},{1888384,1888511},{1888528,1888543},{1888544,1888575},{1888576,1888639},{1888640,1888767},
	{1888784,1888799},{1888800,1888831},{1888832,1888895},{1888896,1889023},{1889040,1889055},{1889056,1889087},{1889088,1889151},{1889152,1889279},
	{1889296,1889311},{1889312,1889343},{1889344,1889407},{1889408,1889535},{1889552,1889567},{1889568,1889599},{1889600,1889663},{1889664,1889791},
	{1889808,1889823},{1889824,1889855},{1889856,1889919},{1889920,1890047},{1890064,1890079},{1890080,1890111},{1890112,1890175},{1890176,1890303},
	{1890320,1890335},{1890336,1890367},{1890368,1890431},{1890432,1890559},{1890576,1890591},{1890592,1890623},{1890624,1890687},{1890688,1890815},
	{1890832,1890847},{1890848,1890879},{1890880,1890943},{1890944,1891071},{1891088,1891103},{1891104,1891135},{1891136,1891199},{1891200,1891327},
	{1892352,1892607},{1892608,1892863},{1892864,1893119},{1893120,1893375},{1893376,1893631},{1893632,1893887},{1893888,1894143},{1894144,1894399},
	{1896704,1896959},{1897472,1897727},{1897728,1897983},{1897984,1898239},{1898240,1898495},{1898496,1898751},{1898752,1899007},{1900544,1900575},
	{1900576,1900607},{1900608,1900639},{1900640,1900671},{1900672,1900703},{1900704,1900735},{1900736,1900767},{1900768,1900799},{1900800,1900831},
	{1900832,1900863},{1900864,1900895},{1900896,1900927},{1900928,1900959},{1900960,1900991},{1900992,1901023},{1901024,1901055},{1901056,1901087},
	{1901088,1901119},{1901120,1901151},{1901152,1901183},{1901184,1901215},{1901216,1901247},{1901248,1901279},{1901280,1901311},{1901312,1901343},
	{1901344,1901375},{1901376,1901407},{1901408,1901439},{1902464,1902495},{1902496,1902527},{1902528,1902559},{1902560,1902591},{1902592,1902623},
	{1902624,1902655},{1902656,1902687},{1902688,1902719},{1902720,1902751},{1902752,1902783},{1902784,1902815},{1902816,1902847},{1902848,1902879},
	{1902880,1902911},{1902912,1902943},{1902944,1902975},{1903488,1903519},{1903520,1903551},{1903552,1903583},{1903584,1903615},{1903616,1903647},
	{1903648,1903679},{1903680,1903711},{1903712,1903743},{1903744,1903775},{1903776,1903807},{1903808,1903839},{1903840,1903871},{1903872,1903903},
	{1903904,1903935},{1903936,1903967},{1903968,1903999},{1904512,1904543},{1904544,1904575},{1904576,1904607},{1904608,1904639},{1904640,1904671},
	{1904672,1904703},{1904704,1904735},{1904736,1904767},{1905024,1905055},{1905056,1905087},{1905088,1905119},{1905120,1905151},{1905152,1905183},
	{1905184,1905215},{1905216,1905247},{1905248,1905279},{1905280,1905311},{1905312,1905343},{1905344,1905375},{1905376,1905407},{1905408,1905439},
	{1905440,1905471},{1905472,1905503},{1905504,1905535},{1905920,1905951},{1905952,1905983},{1905984,1906015},{1906016,1906047},{1906048,1906079},
	{1906080,1906111},{1906112,1906143},{1906144,1906175},{1906176,1906207},{1906208,1906239},{1906240,1906271},{1906272,1906303},{1906304,1906335},
	{1906336,1906367},{1906368,1906399},{1906400,1906431},{1906432,1906463},{1906464,1906495},{1906496,1906527},{1906528,1906559},{1906688,1906719},
	{1906720,1906751},{1906752,1906783},{1906784,1906815},{1906816,1906847},{1906848,1906879},{1906880,1906911},{1906912,1906943},{1906944,1906975},
	{1906976,1907007},{1907008,1907039},{1907040,1907071},{1907072,1907103},{1907104,1907135},{1907136,1907167},{1907168,1907199},{1907200,1907231},
	{1907232,1907263},{1907264,1907295},{1907296,1907327},{1907328,1907359},{1907360,1907391},{1907392,1907423},{1907424,1907455},{1907712,1907743},
	{1907744,1907775},{1907776,1907807},{1907808,1907839},{1907840,1907871},{1907872,1907903},{1907904,1907935},{1907936,1907967},{1907968,1907999},
	{1908000,1908031},{1908032,1908063},{1908064,1908095},{1908096,1908127},{1908128,1908159},{1908160,1908191},{1908192,1908223},{1908992,1909023},
	{1909024,1909055},{1909056,1909087},{1909088,1909119},{1909120,1909151},{1909152,1909183},{1909184,1909215},{1909216,1909247},{1909248,1909279},
	{1909280,1909311},{1909312,1909343},{1909344,1909375},{1909760,1909791},{1909792,1909823},{1909824,1909855},{1909856,1909887},{1909888,1909919},
	{1909920,1909951},{1909952,1909983},{1909984,1910015},{1910272,1910303},{1910304,1910335},{1910336,1910367},{1910368,1910399},{1910400,1910431},
	{1910432,1910463},{1910464,1910495},{1910496,1910527},{1910784,1910815},{1910816,1910847},{1910848,1910879},{1910880,1910911},{1910912,1910943},
	{1910944,1910975},{1910976,1911007},{1911008,1911039},{1911296,1911327},{1911328,1911359},{1911360,1911391},{1911392,1911423},{1911424,1911455},
	{1911456,1911487},{1911488,1911519},{1911520,1911551},{1911552,1911583},{1911584,1911615},{1911616,1911647},{1911648,1911679},{1911680,1911711},
	{1911712,1911743},{1911744,1911775},{1911776,1911807},{1912064,1912095},{1912096,1912127},{1912128,1912159},{1912160,1912191},{1912192,1912223},
	{1912224,1912255},{1912256,1912287},{1912288,1912319},{1912576,1912607},{1912608,1912639},{1912640,1912671},{1912672,1912703},{1912704,1912735},
	{1912736,1912767},{1912768,1912799},{1912800,1912831},{1914880,1914911},{1914912,1914943},{1914944,1914975},{1914976,1915007},{1915008,1915039},
	{1915040,1915071},{1915072,1915103},{1915104,1915135},{1915136,1915167},{1915168,1915199},{1915200,1915231},{1915232,1915263},{1915264,1915295},
	{1915296,1915327},{1915328,1915359},{1915360,1915391},{1915392,1915423},{1915424,1915455},{1915456,1915487},{1915488,1915519},{1915520,1915551},
	{1915552,1915583},{1915584,1915615},{1915616,1915647},{1915648,1915679},{1915680,1915711},{1915712,1915743},{1915744,1915775},{1915776,1915807},
	{1915808,1915839},{1915840,1915871},{1915872,1915903},{1915904,1915935},{1915936,1915967},{1915968,1915999},{1916000,1916031},{1916032,1916063},
	{1916064,1916095},{1916096,1916127},{1916128,1916159},{1916192,1916223},{1916224,1916255},{1916256,1916287},{1916320,1916351},{1916352,1916383},
	{1916384,1916415},{1916448,1916479},{1916480,1916511},{1916512,1916543},{1916576,1916607},{1916608,1916639},{1916640,1916671},{1916704,1916735},
	{1916736,1916767},{1916768,1916799},{1916832,1916863},{1916864,1916895},{1916896,1916927},{1916960,1916991},{1916992,1917023},{1917024,1917055},
	{1917088,1917119},{1917120,1917151},{1917152,1917183},{1917216,1917247},{1917248,1917279},{1917280,1917311},{1917344,1917375},{1917376,1917407},
	{1917408,1917439},{1917472,1917503},{1917504,1917535},{1917536,1917567},{1917600,1917631},{1917632,1917663},{1917664,1917695},{1917696,1917727},
	{1917728,1917759},{1917760,1917791},{1917792,1917823},{1917824,1917855},{1917856,1917887},{1917888,1917919},{1917920,1917951},{1917952,1917983},
	{1917984,1918015},{1918016,1918047},{1918048,1918079},{1918336,1918367},{1918368,1918399},{1918400,1918431},{1918432,1918463},{1918464,1918495},
	{1918496,1918527},{1918528,1918559},{1918560,1918591},{1918592,1918623},{1918624,1918655},{1918656,1918687},{1918688,1918719},{1918720,1918751},
	{1918752,1918783},{1918784,1918815},{1918816,1918847},{1918848,1918879},{1918880,1918911},{1918912,1918943},{1918944,1918975},{1918976,1919007},
	{1919008,1919039},{1919040,1919071},{1919072,1919103},{1919104,1919135},{1919136,1919167},{1919168,1919199},{1919200,1919231},{1919360,1919391},
	{1919392,1919423},{1919424,1919455},{1919456,1919487},{1919488,1919519},{1919520,1919551},{1919680,1919711},{1919712,1919743},{1919808,1919839},
	{1919840,1919871},{1919872,1919903},{1919904,1919935},{1919936,1919967},{1919968,1919999},{1920032,1920063},{1920064,1920095},{1920160,1920191},
	{1920192,1920223},{1920544,1920575},{1920576,1920607},{1920672,1920703},{1920704,1920735},{1920800,1920831},{1920832,1920863},{1920928,1920959},
	{1920960,1920991},{1921056,1921087},{1921088,1921119},{1921184,1921215},{1921216,1921247},{1921408,1921439},{1921440,1921471},{1921536,1921567},
	{1921632,1921663},{1921664,1921695},{1921696,1921727},{1921728,1921759},{1921760,1921791},{1924768,1924799},{1924800,1924831},{1924832,1924863},
	{1924928,1924959},{1941504,1941535},{1941536,1941567},{1941568,1941599},{1941600,1941631},{1941632,1941663},{1941664,1941695},{1941696,1941727},
	{1941728,1941759},{1941760,1941791},{1941792,1941823},{1941824,1941855},{1941856,1941887},{1941888,1941919},{1941920,1941951},{1941952,1941983},
	{1941984,1942015},{1942016,1942047},{1942048,1942079},{1942080,1942111},{1942112,1942143},{1942144,1942175},{1942176,1942207},{1942208,1942239},
	{1942240,1942271},{1942272,1942303},{1942304,1942335},{1942336,1942367},{1942368,1942399},{1942400,1942431},{1942432,1942463},{1942528,1942559},
	{1942560,1942591},{1942592,1942623},{1942624,1942655},{1942656,1942687},{1942688,1942719},{1942720,1942751},{1942752,1942783},{1942784,1942815},
	{1942816,1942847},{1942848,1942879},{1942880,1942911},{1942912,1942943},{1942944,1942975},{1942976,1943007},{1943008,1943039},{1943168,1943199},
	{1943200,1943231},{1943296,1943296},{1943297,1943297},{1943298,1943298},{1943299,1943299},{1943300,1943300},{1943301,1943301},{1943302,1943302},
	{1943303,1943303},{1943304,1943304},{1943305,1943305},{1943306,1943306},{1943307,1943307},{1943308,1943308},{1943309,1943309},{1943310,1943310},
	{1943311,1943311},{1943312,1943312},{1943313,1943313},{1943314,1943314},{1943315,1943315},{1943316,1943316},{1943320,1943320},{1943334,1943334},
	{1943335,1943335},{1943336,1943336},{1943337,1943337},{1943338,1943338},{1943339,1943339},{1943340,1943340},{1943341,1943341},{1943342,1943342},
	{1943343,1943343},{1943345,1943345},{1943346,1943346},{1943349,1943349},{1943350,1943350},{1943353,1943353},{1943354,1943354},{1943357,1943357},
	{1943358,1943358},{1943361,1943361},{1943362,1943362},{1943365,1943365},{1943366,1943366},{1943369,1943369},{1943370,1943370},{1943373,1943373},
	{1943374,1943374},{1943377,1943377},{1943378,1943378},{1943381,1943381},{1943382,1943382},{1943385,1943385},{1943386,1943386},{1943389,1943389},
	{1943390,1943390},{1943418,1943418},{1943419,1943419},{1943420,1943420},{1943421,1943421},{1943424,1943424},{1943425,1943425},{1943426,1943426},
	{1943427,1943427},{1943428,1943428},{1943429,1943429},{1943436,1943436},{1943437,1943437},{1943438,1943438},{1943439,1943439},{1943440,1943440},
	{1943441,1943441},{1943442,1943442},{1943443,1943443},{1943444,1943444},{1943445,1943445},{1943446,1943446},{1943447,1943447},{1943452,1943452},
	{1943453,1943453},{1943456,1943456},{1943457,1943457},{1943458,1943458},{1943459,1943459},{1943460,1943460},{1943461,1943461},{1943462,1943462},
	{1943463,1943463},{1943464,1943464},{1943465,1943465},{1943480,1943480},{1943481,1943481},{1943482,1943482},{1943483,1943483},{1943484,1943484},
	{1943485,1943485},{1943486,1943486},{1943487,1943487},{1943488,1943488},{1943489,1943489},{1943490,1943490},{1943491,1943491},{1943492,1943492},
	{1943493,1943493},{1943494,1943494},{1943495,1943495},{1943496,1943496},{1943497,1943497},{1943498,1943498},{1943499,1943499},{1943500,1943500},
	{1943501,1943501},{1943502,1943502},{1943503,1943503},{1943520,1943551},{1943560,1943567},{1943568,1943583},{1943584,1943615},{1943616,1943679},
	{1943816,1943823},{1943824,1943839},{1943840,1943871},{1943872,1943935},{1944072,1944079},{1944080,1944095},{1944096,1944127},{1944128,1944191},
	{1948400,1948407},{1948408,1948411},{1948656,1948663},{1948664,1948667},{1948912,1948919},{1948920,1948923},{1949152,1949167},{1949168,1949175},
	{1949176,1949179},{1949180,1949181},{1949680,1949687},{1949688,1949691},{1949936,1949943},{1949944,1949947},{1950144,1950144},{1950176,1950176},
	{1950192,1950192},{1950200,1950200},{1950204,1950204},{1950216,1950223},{1950224,1950239},{1950240,1950271},{1950272,1950272},{1950472,1950479},
	{1950480,1950495},{1950496,1950527},{1950528,1950528},{1950728,1950735},{1950736,1950751},{1950752,1950783},{1950784,1950847},{1950984,1950991},
	{1950992,1951007},{1951008,1951039},{1951040,1951103},{1951240,1951247},{1951248,1951263},{1951264,1951295},{1951296,1951359},{1952008,1952015},
	{1952016,1952031},{1952032,1952063},{1952064,1952127},{1952264,1952271},{1952272,1952287},{1952288,1952319},{1952320,1952383},{1952520,1952527},
	{1952528,1952543},{1952544,1952575},{1952576,1952639},{1952776,1952783},{1952784,1952799},{1952800,1952831},{1952832,1952895},{1953032,1953039},
	{1953040,1953055},{1953056,1953087},{1953088,1953151},{1953808,1953823},{1953824,1953855},{1953856,1953919},{1953920,1954047},{1954064,1954079},
	{1954080,1954111},{1954112,1954175},{1954176,1954303},{1954320,1954335},{1954336,1954367},{1954368,1954431},{1954432,1954559},{1954576,1954591},
	{1954592,1954623},{1954624,1954687},{1954688,1954815},{1954832,1954847},{1954848,1954879},{1954880,1954943},{1954944,1955071},{1955088,1955103},
	{1955104,1955135},{1955136,1955199},{1955200,1955327},{1955344,1955359},{1955360,1955391},{1955392,1955455},{1955456,1955583},{1955600,1955615},
	{1955616,1955647},{1955648,1955711},{1955712,1955839},{1955856,1955871},{1955872,1955903},{1955904,1955967},{1955968,1956095},{1956112,1956127},
	{1956128,1956159},{1956160,1956223},{1956224,1956351},{1956368,1956383},{1956384,1956415},{1956416,1956479},{1956480,1956607},{1956624,1956639},
	{1956640,1956671},{1956672,1956735},{1956736,1956863},{1957888,1958143},{1958144,1958399},{1958400,1958655},{1958656,1958911},{1958912,1959167},
	{1959168,1959423},{1959424,1959679},{1959680,1959935},{1962240,1962495},{1963008,1963263},{1963264,1963519},{1963520,1963775},{1963776,1964031},
	{1964032,1964287},{1964288,1964543},{1964544,1964799},{1964800,1965055},
};

---- MODULE Tables ----
\* Generated by tools/gen_tables.py from the definitions in the standards.
\* fractional parts of square roots of primes 1..8
SHA256_H ==
  <<<<27145,58983>>,<<47975,44677>>,<<15470,62322>>,<<42319,62778>>,<<20750,21119>>,<<39685,26764>>,<<8067,55723>>,<<23520,52505>>>>
\* low words of the roots of primes 9..16
SHA224_H ==
  <<<<49413,40664>>,<<13948,54535>>,<<12400,56599>>,<<63246,22841>>,<<65472,2865>>,<<26712,5393>>,<<25849,36775>>,<<48890,20388>>>>
\* fractional parts of cube roots
SHA256_K ==
  <<<<17034,12184>>,<<28983,17553>>,<<46528,64463>>,<<59829,56229>>,<<14678,49755>>,<<23025,4593>>,<<37439,33444>>,<<43804,24277>>,<<55303,43672>>,<<4739,23297>>,<<9265,34238>>,<<21772,32195>>,
  <<29374,23924>>,<<32990,45566>>,<<39900,1703>>,<<49563,61812>>,<<58523,27073>>,<<61374,18310>>,<<4033,40390>>,<<9228,41420>>,<<11753,11375>>,<<19060,33962>>,<<23728,43484>>,<<30457,35034>>,
  <<38974,20818>>,<<43057,50797>>,<<45059,10184>>,<<48985,32711>>,<<50912,3059>>,<<54695,37191>>,<<1738,25425>>,<<5161,10599>>,<<10167,2693>>,<<11803,8504>>,<<19756,28156>>,<<21304,3347>>,
  <<25866,29524>>,<<30314,2747>>,<<33218,51502>>,<<37490,11397>>,<<41663,59553>>,<<43034,26187>>,<<49739,35696>>,<<51052,20899>>,<<53650,59417>>,<<54937,1572>>,<<62478,13701>>,<<4202,41072>>,
  <<6564,49430>>,<<7735,27656>>,<<10056,30540>>,<<13488,48309>>,<<14620,3251>>,<<20184,43594>>,<<23452,51791>>,<<26670,28659>>,<<29839,33518>>,<<30885,25455>>,<<33992,30740>>,<<36039,520>>,
  <<37054,65530>>,<<42064,27883>>,<<48889,41975>>,<<50801,30962>>>>
SHA512_H ==
  <<<<27145,58983,62396,51464>>,<<47975,44677,33994,42811>>,<<15470,62322,65172,63531>>,<<42319,62778,24349,14065>>,<<20750,21119,44518,33489>>,<<39685,26764,11070,27679>>,<<8067,55723,64321,48491>>,<<23520,52505,4990,8569>>>>
SHA384_H ==
  <<<<52155,40285,49413,40664>>,<<25242,10538,13948,54535>>,<<37209,346,12400,56599>>,<<5423,60632,63246,22841>>,<<26419,9831,65472,2865>>,<<36532,19079,26712,5393>>,<<56076,11789,25849,36775>>,<<18357,18461,48890,20388>>>>
SHA512_K ==
  <<<<17034,12184,55080,44578>>,<<28983,17553,9199,26061>>,<<46528,64463,60493,15151>>,<<59829,56229,33161,56252>>,<<14678,49755,62280,46392>>,<<23025,4593,46597,53273>>,<<37439,33444,44825,20379>>,<<43804,24277,55917,33048>>,<<55303,43672,41731,578>>,<<4739,23297,17776,28606>>,<<9265,34238,20196,45708>>,<<21772,32195,54783,46306>>,
  <<29374,23924,62075,35183>>,<<32990,45566,15126,38577>>,<<39900,1703,9671,4661>>,<<49563,61812,53097,9876>>,<<58523,27073,40689,19154>>,<<61374,18310,14415,9699>>,<<4033,40390,35724,54709>>,<<9228,41420,30636,40037>>,<<11753,11375,22827,629>>,<<19060,33962,28326,58499>>,<<23728,43484,48449,64468>>,<<30457,35034,33553,21429>>,
  <<38974,20818,61030,57259>>,<<43057,50797,11700,12816>>,<<45059,10184,39163,8511>>,<<48985,32711,48879,3812>>,<<50912,3059,15784,36802>>,<<54695,37191,37642,42789>>,<<1738,25425,57347,33391>>,<<5161,10599,2574,28272>>,<<10167,2693,18130,12284>>,<<11803,8504,23590,51494>>,<<19756,28156,23236,10989>>,<<21304,3347,40341,46047>>,
  <<25866,29524,35759,25566>>,<<30314,2747,15479,45736>>,<<33218,51502,18413,44774>>,<<37490,11397,5250,13627>>,<<41663,59553,19697,868>>,<<43034,26187,48194,12289>>,<<49739,35696,53496,38801>>,<<51052,20899,1620,48688>>,<<53650,59417,55023,21016>>,<<54937,1572,21861,43280>>,<<62478,13701,22385,8234>>,<<4202,41072,12987,53688>>,
  <<6564,49430,47314,53448>>,<<7735,27656,20801,43859>>,<<10056,30540,57230,60313>>,<<13488,48309,57755,18600>>,<<14620,3251,50633,23139>>,<<20184,43594,58177,35531>>,<<23452,51791,30563,58227>>,<<26670,28659,54962,47267>>,<<29839,33518,24047,45820>>,<<30885,25455,17175,12128>>,<<33992,30740,41456,43890>>,<<36039,520,6756,14828>>,
  <<37054,65530,9059,7720>>,<<42064,27883,56962,48617>>,<<48889,41975,45766,30997>>,<<50801,30962,58226,21291>>,<<51751,16078,59942,24988>>,<<53638,47303,8640,49671>>,<<60122,32214,52704,60190>>,<<62845,20351,61038,53624>>,<<1776,26538,29207,28602>>,<<2659,32197,41672,39078>>,<<4415,38916,48889,3502>>,<<7025,2869,4892,18203>>,
  <<10459,30709,8964,32132>>,<<13002,43899,16583,9363>>,<<15518,48650,5577,48828>>,<<17181,26564,39952,3404>>,<<19653,54462,52030,17078>>,<<22911,10652,64613,32298>>,<<24523,28587,15062,64236>>,<<27716,6540,19015,22551>>>>
\* IV generation function of FIPS 180-4 5.3.6
SHA512_224_H ==
  <<<<35901,14280,6484,19874>>,<<29665,39270,35292,54486>>,<<7674,47022,13055,40066>>,<<26525,54548,22575,40911>>,<<3949,11113,31700,19880>>,<<30691,28531,1220,35138>>,<<16285,34216,27165,14024>>,<<4370,59053,37334,37537>>>>
SHA512_256_H ==
  <<<<8753,8596,64555,63276>>,<<40789,24483,51276,25794>>,<<9107,47211,28499,45393>>,<<38456,30489,22848,60093>>,<<38440,16098,43150,65507>>,<<48734,7717,21382,14738>>,<<11009,39420,11397,47274>>,<<3767,11740,33221,11426>>>>
\* RFC 1320/1321
MD_H ==
  <<<<26437,8961>>,<<61389,43913>>,<<39098,56574>>,<<4146,21622>>>>
SHA1_H ==
  <<<<26437,8961>>,<<61389,43913>>,<<39098,56574>>,<<4146,21622>>,<<50130,57840>>>>
\* floor(2^32 * abs(sin(i)))
MD5_T ==
  <<<<55146,42104>>,<<59591,46934>>,<<9248,28891>>,<<49597,52974>>,<<62844,4015>>,<<18311,50730>>,<<43056,17939>>,<<64838,38145>>,<<27008,39128>>,<<35652,63407>>,<<65535,23473>>,<<35164,55230>>,
  <<27536,4386>>,<<64920,29075>>,<<42617,17294>>,<<18868,2081>>,<<63006,9570>>,<<49216,45888>>,<<9822,23121>>,<<59830,51114>>,<<54831,4189>>,<<580,5203>>,<<55457,59009>>,<<59347,64456>>,
  <<8673,52710>>,<<49975,2006>>,<<62677,3463>>,<<17754,5357>>,<<43491,59653>>,<<64751,41976>>,<<26479,729>>,<<36138,19594>>,<<65530,14658>>,<<34673,63105>>,<<28061,24866>>,<<64997,14348>>,
  <<42174,59972>>,<<19422,53161>>,<<63163,19296>>,<<48831,48240>>,<<10395,32454>>,<<60065,10234>>,<<54511,12421>>,<<1160,7429>>,<<55764,53305>>,<<59099,39397>>,<<8098,31992>>,<<50348,22117>>,
  <<62505,8772>>,<<17194,65431>>,<<43924,9127>>,<<64659,41017>>,<<25947,22979>>,<<36620,52370>>,<<65519,62589>>,<<34180,24017>>,<<28584,32335>>,<<65068,59104>>,<<41729,17172>>,<<19976,4513>>,
  <<63315,32386>>,<<48442,62005>>,<<10967,53947>>,<<60294,54161>>>>
\* 2^30 * sqrt(2), sqrt(3), sqrt(5), sqrt(10)
SQ_K ==
  <<<<0,0>>,<<23170,31129>>,<<28377,60321>>,<<36635,48348>>,<<51810,49622>>>>
CB_K ==
  <<<<20642,35814>>>>
\* Blowfish: fractional part of pi
BF_P ==
  <<<<9279,27272>>,<<34211,2259>>,<<4889,35374>>,<<880,29508>>,<<41993,14370>>,<<10655,12752>>,<<2094,64152>>,<<60494,27785>>,<<17704,8678>>,<<14544,4983>>,<<48724,26319>>,<<13545,3180>>,
  <<49324,10679>>,<<51580,20701>>,<<16260,54709>>,<<46407,2327>>,<<37398,54745>>,<<35193,64283>>>>
BF_S0 ==
  <<<<53553,2982>>,<<39135,46508>>,<<12285,29403>>,<<53274,57271>>,<<47329,45037>>,<<27174,32406>>,<<47740,36933>>,<<61740,32665>>,<<9377,39239>>,<<45969,27895>>,<<2049,62178>>,<<34190,64534>>,
  <<25449,8408>>,<<29015,20073>>,<<42072,65187>>,<<62611,15742>>,<<3477,29839>>,<<29326,46680>>,<<29067,52568>>,<<33301,19182>>,<<31572,42013>>,<<49754,22965>>,<<39984,54585>>,<<10994,24595>>,
  <<50641,45091>>,<<10336,34288>>,<<51777,31000>>,<<47323,14575>>,<<36473,56496>>,<<24634,6158>>,<<27806,3723>>,<<45086,35390>>,<<55061,30657>>,<<48433,19239>>,<<30895,12250>>,<<21856,23648>>,
  <<58965,9715>>,<<43605,43924>>,<<22344,39010>>,<<25576,5184>>,<<21962,14698>>,<<10923,4278>>,<<46284,23604>>,<<4417,59598>>,<<41300,34479>>,<<31858,59795>>,<<46062,5137>>,<<25455,48170>>,
  <<11177,50525>>,<<29720,12790>>,<<52828,15894>>,<<39815,37662>>,<<45014,47667>>,<<27684,53084>>,<<31282,21377>>,<<10389,34423>>,<<15247,18584>>,<<27467,47535>>,<<50367,59419>>,<<26152,8595>>,
  <<25048,2508>>,<<64289,43409>>,<<18556,44128>>,<<24044,32818>>,<<61316,23901>>,<<59781,30129>>,<<56358,8962>>,<<60261,7048>>,<<9097,16001>>,<<54166,44229>>,<<3949,28659>>,<<33780,16953>>,
  <<11787,17538>>,<<42116,8196>>,<<27080,61514>>,<<40479,39774>>,<<8646,26690>>,<<63209,27802>>,<<26380,40033>>,<<43987,35056>>,<<27217,41170>>,<<55380,12136>>,<<38415,42792>>,<<43857,13219>>,
  <<28399,2924>>,<<4986,15332>>,<<47675,61520>>,<<32507,10904>>,<<41457,25885>>,<<14767,374>>,<<26314,22846>>,<<33347,3720>>,<<36078,34329>>,<<17775,40884>>,<<32132,42435>>,<<15243,24254>>,
  <<57455,30168>>,<<34241,8307>>,<<16410,17567>>,<<22209,27302>>,<<20179,43618>>,<<13887,30470>>,<<7166,57202>>,<<17051,573>>,<<14288,55076>>,<<53258,4680>>,<<56079,60115>>,<<18929,49307>>,
  <<1875,29385>>,<<32921,7035>>,<<9684,31192>>,<<63208,57079>>,<<58366,20506>>,<<46713,19515>>,<<38764,57533>>,<<1216,1722>>,<<49577,20406>>,<<16543,24772>>,<<24156,40642>>,<<6506,9315>>,
  <<26875,28591>>,<<15980,21429>>,<<4921,45803>>,<<15186,60527>>,<<28156,20767>>,<<39728,38188>>,<<52353,17732>>,<<44894,48393>>,<<48867,53252>>,<<56883,19197>>,<<26127,10247>>,<<6446,19379>>,
  <<49355,43095>>,<<17864,29711>>,<<53771,24377>>,<<47571,64475>>,<<21881,49341>>,<<6752,12810>>,<<54945,198>>,<<16428,29305>>,<<26527,9726>>,<<64287,41932>>,<<36517,59896>>,<<56114,8952>>,
  <<15477,5855>>,<<64865,27413>>,<<12112,7880>>,<<44293,21163>>,<<12861,46586>>,<<64803,34656>>,<<21297,31560>>,<<15872,57218>>,<<40540,22459>>,<<51823,36000>>,<<6791,22062>>,<<57111,27099>>,
  <<54594,43254>>,<<10366,65475>>,<<44135,12998>>,<<35919,21875>>,<<26971,10160>>,<<48074,22728>>,<<57855,41821>>,<<47344,4512>>,<<4346,15768>>,<<64801,33720>>,<<19196,46444>>,<<11729,54107>>,
  <<39507,58489>>,<<46840,17765>>,<<53902,18876>>,<<19451,38800>>,<<57821,62170>>,<<42187,32307>>,<<25339,4929>>,<<52964,50920>>,<<61216,51930>>,<<13943,19457>>,<<53374,40702>>,<<11249,8116>>,
  <<38363,55885>>,<<44688,37272>>,<<60077,36465>>,<<27539,54688>>,<<53390,53712>>,<<44999,9696>>,<<36412,23343>>,<<36469,38071>>,<<36854,58107>>,<<61970,11108>>,<<34952,47122>>,<<36877,61468>>,
  <<20397,24224>>,<<26767,49948>>,<<53711,61841>>,<<45992,49581>>,<<12079,8728>>,<<48654,6007>>,<<60021,11774>>,<<35586,8097>>,<<58784,52239>>,<<46447,29928>>,<<6316,62422>>,<<52873,58009>>,
  <<46248,20448>>,<<64787,57527>>,<<31940,15233>>,<<53933,43225>>,<<5727,41574>>,<<32917,30469>>,<<37836,29460>>,<<8474,5239>>,<<59053,8293>>,<<30645,64134>>,<<51028,17141>>,<<64413,13775>>,
  <<60365,44812>>,<<31550,35232>>,<<54849,7123>>,<<44574,32329>>,<<37,3629>>,<<8305,45918>>,<<8808,187>>,<<22456,57519>>,<<9316,13979>>,<<61449,47390>>,<<21859,37149>>,<<23007,42666>>,
  <<30913,17289>>,<<55642,21375>>,<<8317,23458>>,<<741,47557>>,<<33574,886>>,<<25237,53161>>,<<4552,6504>>,<<20083,19009>>,<<45895,11722>>,<<31508,43338>>,<<6993,82>>,<<39507,10517>>,
  <<54799,22335>>,<<48283,50916>>,<<11104,42102>>,<<33254,29696>>,<<2234,28597>>,<<22299,59679>>,<<62102,60523>>,<<10765,55573>>,<<46691,25889>>,<<59321,63926>>,<<65332,1326>>,<<50565,22116>>,
  <<21424,11613>>,<<43423,36769>>,<<2234,18329>>,<<28293,1898>>>>
BF_S1 ==
  <<<<19322,28905>>,<<46515,10564>>,<<56181,2350>>,<<50201,9763>>,<<44398,42672>>,<<18855,57213>>,<<40174,24760>>,<<36845,45670>>,<<60586,35953>>,<<27034,6143>>,<<22116,21100>>,<<49841,40673>>,
  <<6454,677>>,<<29961,19497>>,<<41049,4928>>,<<58392,14910>>,<<16212,39066>>,<<23362,40293>>,<<27535,58582>>,<<39415,16342>>,<<41426,39943>>,<<61416,12533>>,<<19757,14566>>,<<61477,24001>>,
  <<19677,8326>>,<<33904,60198>>,<<25474,59846>>,<<542,52318>>,<<2408,27455>>,<<16058,61385>>,<<15511,6164>>,<<27498,28833>>,<<26751,13700>>,<<21152,57990>>,<<47004,21253>>,<<43600,1847>>,
  <<15879,33820>>,<<32734,44636>>,<<36477,17644>>,<<22294,62136>>,<<45114,55863>>,<<61520,3085>>,<<61468,7940>>,<<512,46079>>,<<44556,62746>>,<<15541,29874>>,<<9603,31320>>,<<56329,8637>>,
  <<53649,5113>>,<<31913,12278>>,<<37938,18291>>,<<8949,18177>>,<<15077,58753>>,<<14274,56028>>,<<51381,30260>>,<<39667,56743>>,<<43332,24902>>,<<4048,782>>,<<60616,51006>>,<<42101,7745>>,
  <<57912,52633>>,<<15338,3631>>,<<12928,48033>>,<<6206,45873>>,<<20052,35640>>,<<20333,47368>>,<<28482,3331>>,<<62986,1215>>,<<11448,4752>>,<<9367,31865>>,<<22137,45170>>,<<48303,35247>>,
  <<56986,30495>>,<<55699,2064>>,<<45963,44562>>,<<56527,16174>>,<<21778,29215>>,<<11883,28964>>,<<20506,56806>>,<<40836,52615>>,<<31320,18200>>,<<29704,55831>>,<<48287,39612>>,<<59723,32140>>,
  <<60538,60474>>,<<56197,7674>>,<<25353,17254>>,<<50276,50130>>,<<61212,6215>>,<<12821,55560>>,<<56643,15159>>,<<9410,47638>>,<<4769,19779>>,<<10853,50257>>,<<20628,2>>,<<4922,58589>>,
  <<29151,63646>>,<<4145,20053>>,<<33196,30678>>,<<24337,6555>>,<<1077,22257>>,<<55203,51051>>,<<15377,6203>>,<<22820,42249>>,<<62095,59117>>,<<38897,64506>>,<<40634,48940>>,<<7701,15470>>,
  <<34531,17776>>,<<60137,28593>>,<<34318,24074>>,<<23102,10931>>,<<30495,59164>>,<<20029,1786>>,<<10597,56505>>,<<39399,7439>>,<<32830,35286>>,<<21094,51237>>,<<11852,51576>>,<<39952,45930>>,
  <<50709,3770>>,<<38114,60024>>,<<42492,15443>>,<<7690,11764>>,<<62199,20135>>,<<13853,11069>>,<<6457,9743>>,<<6594,31072>>,<<21027,42760>>,<<63251,4790>>,<<60333,65134>>,<<60099,8038>>,
  <<58300,17813>>,<<42619,51331>>,<<45439,14289>>,<<396,65320>>,<<49970,56815>>,<<48748,23205>>,<<25944,8581>>,<<26795,38914>>,<<61134,42255>>,<<56111,38203>>,<<10991,32173>>,<<23406,12164>>,
  <<5409,46632>>,<<10503,24944>>,<<60637,18293>>,<<24991,5392>>,<<5068,43056>>,<<60257,48534>>,<<820,65054>>,<<43523,25551>>,<<46451,23696>>,<<19568,41529>>,<<54686,40459>>,<<52138,56852>>,
  <<61132,34492>>,<<24674,11431>>,<<40107,23723>>,<<45811,33902>>,<<25739,7855>>,<<6589,61642>>,<<40995,27065>>,<<25946,47952>>,<<16488,23090>>,<<15402,46259>>,<<12702,59861>>,<<49185,47351>>,
  <<39764,2841>>,<<34655,41113>>,<<38391,39294>>,<<25149,32168>>,<<63543,34970>>,<<38883,11639>>,<<4589,37727>>,<<5736,4737>>,<<3637,34857>>,<<51174,8150>>,<<38622,57249>>,<<30808,47769>>,
  <<22517,33957>>,<<6946,29283>>,<<39811,50175>>,<<6850,18070>>,<<52659,2795>>,<<21294,12372>>,<<36825,18660>>,<<28092,12584>>,<<22763,62191>>,<<13510,65514>>,<<65064,60769>>,<<61052,15475>>,
  <<23882,5337>>,<<59492,47075>>,<<16912,23828>>,<<8254,5088>>,<<17902,58038>>,<<41898,44010>>,<<56172,20245>>,<<64203,20432>>,<<51010,62530>>,<<61290,48053>>,<<25935,15133>>,<<16845,8453>>,
  <<55326,31134>>,<<34437,19911>>,<<58443,18282>>,<<15745,25168>>,<<53090,41458>>,<<23437,9798>>,<<64648,33696>>,<<49607,46755>>,<<32533,9411>>,<<27083,29842>>,<<18308,35339>>,<<22162,45701>>,
  <<2395,48896>>,<<44313,18589>>,<<5218,45428>>,<<9090,3584>>,<<22594,36138>>,<<3157,62954>>,<<7597,62526>>,<<9023,28769>>,<<13170,61586>>,<<36243,32321>>,<<54879,60657>>,<<27682,15323>>,
  <<31966,14169>>,<<52206,29792>>,<<16517,62119>>,<<52855,12910>>,<<42503,32900>>,<<6648,20638>>,<<59631,55381>>,<<25049,38709>>,<<43369,42922>>,<<50444,1730>>,<<23044,44028>>,<<32779,51932>>,
  <<40516,31278>>,<<49989,13444>>,<<64981,26373>>,<<3614,40649>>,<<56179,56275>>,<<4181,35021>>,<<26463,55929>>,<<58215,17216>>,<<50628,13413>>,<<28990,14552>>,<<15656,63646>>,<<61805,65312>>,
  <<5438,8679>>,<<36784,15690>>,<<59107,40747>>,<<56195,44535>>>>
BF_S2 ==
  <<<<59709,23144>>,<<38017,16631>>,<<63052,9756>>,<<37993,10548>>,<<16661,8439>>,<<30210,54519>>,<<48372,27438>>,<<54434,104>>,<<54280,9329>>,<<13088,62570>>,<<17335,54455>>,<<20480,25007>>,
  <<7737,63022>>,<<38692,17734>>,<<5153,20340>>,<<49035,34880>>,<<19861,64541>>,<<38581,37295>>,<<28916,56787>>,<<26272,12101>>,<<49084,2540>>,<<957,38789>>,<<32684,28112>>,<<12747,34052>>,
  <<38635,10163>>,<<22013,14657>>,<<55845,18406>>,<<43978,2714>>,<<10320,30757>>,<<21252,10740>>,<<2604,34522>>,<<59830,28155>>,<<26844,5218>>,<<55112,26880>>,<<26638,49316>>,<<10145,36334>>,
  <<20287,65186>>,<<59527,44428>>,<<46476,57350>>,<<31476,54966>>,<<43726,7804>>,<<54071,24556>>,<<52856,41881>>,<<16491,10818>>,<<8446,40501>>,<<55795,34233>>,<<60985,55211>>,<<15122,20107>>,
  <<7625,64247>>,<<19309,6230>>,<<9891,26161>>,<<60131,38834>>,<<14958,64116>>,<<56667,17202>>,<<26689,59383>>,<<51832,8443>>,<<64266,62798>>,<<55550,45975>>,<<17728,22188>>,<<47688,38183>>,
  <<21843,14906>>,<<8323,36231>>,<<65131,43447>>,<<53398,38219>>,<<21928,26556>>,<<41237,39512>>,<<52393,10595>>,<<39393,56115>>,<<42538,19030>>,<<16177,9721>>,<<24308,32284>>,<<36905,12668>>,
  <<65016,59394>>,<<1063,12144>>,<<32955,5468>>,<<1320,11491>>,<<38337,5448>>,<<58566,27938>>,<<18625,4927>>,<<50959,34524>>,<<2041,51694>>,<<16644,7951>>,<<16455,31140>>,<<23944,28183>>,
  <<12895,20971>>,<<54683,49361>>,<<62140,49551>>,<<16657,13668>>,<<9595,30772>>,<<24618,40032>>,<<57336,59555>>,<<8035,27675>>,<<3602,46274>>,<<737,12958>>,<<44902,20433>>,<<51921,33045>>,
  <<27427,38368>>,<<13118,37601>>,<<15140,2914>>,<<61118,47394>>,<<34226,41486>>,<<59066,3481>>,<<56946,3212>>,<<11682,63272>>,<<53266,30789>>,<<38327,38141>>,<<25725,2146>>,<<59340,62960>>,
  <<21577,41839>>,<<34685,18682>>,<<50077,64807>>,<<62270,36126>>,<<2631,25409>>,<<39214,65396>>,<<14959,28331>>,<<62712,64823>>,<<43026,56416>>,<<41451,56824>>,<<39195,57676>>,<<56174,27405>>,
  <<50811,21776>>,<<28007,11319>>,<<10085,54331>>,<<56528,59396>>,<<61737,3527>>,<<52224,65443>>,<<46393,3986>>,<<26895,60683>>,<<26235,40955>>,<<52955,32156>>,<<41105,53003>>,<<55573,24227>>,
  <<47891,12168>>,<<20827,44324>>,<<31636,31167>>,<<30267,55019>>,<<14137,11955>>,<<52241,22905>>,<<32806,58007>>,<<62510,12589>>,<<26690,44455>>,<<50794,11067>>,<<4725,19660>>,<<30766,61724>>,
  <<27154,16951>>,<<46994,20967>>,<<1697,48102>>,<<19451,25424>>,<<6763,4120>>,<<4554,60922>>,<<15653,48600>>,<<58081,50121>>,<<17474,5721>>,<<2578,4998>>,<<55564,60526>>,<<54699,59946>>,
  <<25775,26446>>,<<55942,43103>>,<<48831,59784>>,<<25828,50174>>,<<40380,32855>>,<<61687,49286>>,<<24696,31736>>,<<24579,24653>>,<<53757,33606>>,<<63032,8112>>,<<30533,44548>>,<<55094,64716>>,
  <<33602,27443>>,<<61470,43889>>,<<45184,16775>>,<<15360,24159>>,<<30624,22462>>,<<48616,44580>>,<<21830,17049>>,<<48984,11873>>,<<20056,62607>>,<<62173,64930>>,<<62580,61240>>,<<34697,48578>>,
  <<21350,63939>>,<<51379,36468>>,<<46197,62037>>,<<18172,55737>>,<<31467,9825>>,<<35613,57220>>,<<33898,3705>>,<<37215,38370>>,<<18030,22926>>,<<8372,22384>>,<<36053,21905>>,<<51458,56908>>,
  <<47371,44257>>,<<48002,1488>>,<<4520,25160>>,<<30068,43422>>,<<46975,6582>>,<<57513,56329>>,<<26157,2465>>,<<50226,17971>>,<<59482,7938>>,<<2544,48780>>,<<19097,40997>>,<<7534,65040>>,
  <<6841,15645>>,<<2981,42207>>,<<41350,61967>>,<<10344,61801>>,<<56503,55939>>,<<22329,1790>>,<<41442,52891>>,<<20429,32594>>,<<20497,24065>>,<<42758,33786>>,<<40962,46532>>,<<3558,53287>>,
  <<39672,35879>>,<<30527,34369>>,<<50016,19462>>,<<25000,1717>>,<<61463,31272>>,<<49397,34528>>,<<96,22698>>,<<12508,32098>>,<<4582,40663>>,<<9016,60003>>,<<21442,56724>>,<<49858,5684>>,
  <<48075,61014>>,<<37052,46814>>,<<60412,32161>>,<<52825,7542>>,<<28421,58377>>,<<19324,392>>,<<14706,2621>>,<<31890,31780>>,<<34531,29279>>,<<29261,40377>>,<<6849,23476>>,<<54174,47356>>,
  <<60756,21880>>,<<2300,42421>>,<<55357,31955>>,<<19885,4036>>,<<7760,61278>>,<<45409,59128>>,<<41605,5337>>,<<27729,4924>>,<<28629,51175>>,<<22241,20164>>,<<13866,49102>>,<<56774,51255>>,
  <<55194,12852>>,<<37475,33298>>,<<26382,64142>>,<<16480,224>>>>
BF_S3 ==
  <<<<14905,52791>>,<<54266,62927>>,<<43970,30519>>,<<23237,11547>>,<<23728,26526>>,<<20387,14146>>,<<54146,10048>>,<<39356,39870>>,<<54545,36509>>,<<48911,29461>>,<<54829,7294>>,<<50944,50299>>,
  <<46988,7019>>,<<8609,36933>>,<<45678,45502>>,<<27190,28340>>,<<22344,43823>>,<<48276,28281>>,<<50851,30418>>,<<25929,49864>>,<<21263,63726>>,<<18061,56957>>,<<54643,2589>>,<<19664,19910>>,
  <<10553,48091>>,<<43450,18000>>,<<44181,9960>>,<<48734,58116>>,<<41466,54768>>,<<27181,20890>>,<<25583,36066>>,<<39558,60962>>,<<49289,49848>>,<<17188,12022>>,<<42270,938>>,<<40178,53412>>,
  <<33728,25018>>,<<39913,27213>>,<<36837,5456>>,<<47716,23510>>,<<10278,41721>>,<<42810,15073>>,<<19369,38278>>,<<61269,25321>>,<<50991,61395>>,<<63314,63450>>,<<16132,28521>>,<<30714,2649>>,
  <<32996,43285>>,<<34736,34305>>,<<39689,59053>>,<<15166,58771>>,<<59792,64858>>,<<40500,55191>>,<<11504,47065>>,<<555,35665>>,<<38613,44090>>,<<381,42621>>,<<53711,16086>>,<<31869,11560>>,
  <<8095,9679>>,<<44530,47259>>,<<23254,46194>>,<<23176,62796>>,<<57385,44145>>,<<57369,42470>>,<<18352,44285>>,<<60819,64155>>,<<59603,50317>>,<<10299,22476>>,<<63701,26153>>,<<30995,11816>>,
  <<30815,401>>,<<60789,24661>>,<<63382,3652>>,<<58323,24204>>,<<5381,28116>>,<<35060,28090>>,<<929,24869>>,<<1380,61629>>,<<50155,40469>>,<<15504,22434>>,<<38695,6892>>,<<43322,1834>>,
  <<6975,28059>>,<<7779,8693>>,<<62876,26363>>,<<9948,62233>>,<<30003,55592>>,<<45397,65013>>,<<854,13442>>,<<35514,15547>>,<<10321,30481>>,<<49674,55800>>,<<43980,20839>>,<<52397,37471>>,
  <<19944,5969>>,<<14384,56462>>,<<14237,22626>>,<<37664,63889>>,<<60026,37058>>,<<64318,31694>>,<<20769,52836>>,<<30543,48690>>,<<43190,58238>>,<<49961,15686>>,<<18654,21353>>,<<25619,59008>>,
  <<41646,2064>>,<<56685,45604>>,<<27013,11773>>,<<2311,8550>>,<<45978,17930>>,<<25669,49373>>,<<22636,57039>>,<<7200,51374>>,<<23486,63453>>,<<7000,36160>>,<<52434,383>>,<<27572,58299>>,
  <<56738,27262>>,<<14937,65349>>,<<15925,2628>>,<<48308,52693>>,<<29418,52904>>,<<64100,33979>>,<<36198,4782>>,<<48956,28487>>,<<53915,58467>>,<<21551,23966>>,<<44738,30491>>,<<63054,25456>>,
  <<29710,3469>>,<<59227,4951>>,<<63602,5745>>,<<44883,32093>>,<<16448,51976>>,<<20148,58060>>,<<13522,18026>>,<<277,44932>>,<<57776,1064>>,<<38296,14877>>,<<1720,40884>>,<<52846,41032>>,
  <<28479,15234>>,<<13600,43906>>,<<282,7499>>,<<10098,10232>>,<<24853,24753>>,<<59283,16348>>,<<47930,31019>>,<<13381,9661>>,<<41096,14817>>,<<20942,31051>>,<<12082,51639>>,<<40991,47817>>,
  <<57372,51326>>,<<48327,53750>>,<<52993,4547>>,<<41448,43719>>,<<6800,34633>>,<<54351,48538>>,<<53466,57035>>,<<54538,55864>>,<<825,49962>>,<<50833,13927>>,<<36345,12668>>,<<57521,11087>>,
  <<63390,22967>>,<<17397,47930>>,<<62165,6655>>,<<10201,17820>>,<<49047,8748>>,<<5606,64554>>,<<3985,64625>>,<<39828,5413>>,<<64229,37729>>,<<52918,40171>>,<<49832,25689>>,<<4794,43217>>,
  <<46785,1886>>,<<58117,27148>>,<<4306,20581>>,<<51971,42050>>,<<57580,28174>>,<<5784,56123>>,<<19608,41150>>,<<12920,59748>>,<<40735,38194>>,<<57555,37599>>,<<54176,13355>>,<<35185,61982>>,
  <<6922,29761>>,<<19363,13452>>,<<50622,28960>>,<<50038,13016>>,<<57141,40845>>,<<39833,12078>>,<<58891,28487>>,<<4067,61725>>,<<58700,55892>>,<<7898,55441>>,<<52834,31183>>,<<52542,32367>>,
  <<5656,45414>>,<<64812,7429>>,<<33935,53957>>,<<63227,8857>>,<<62755,62295>>,<<42546,30243>>,<<37800,13617>>,<<22220,52482>>,<<44272,33122>>,<<23157,60341>>,<<28182,13975>>,<<35026,29644>>,
  <<56982,25234>>,<<33209,18896>>,<<19536,36891>>,<<29126,22036>>,<<59078,51133>>,<<12922,5130>>,<<17889,53254>>,<<50162,31642>>,<<51626,21501>>,<<25256,3840>>,<<47909,49122>>,<<13757,54006>>,
  <<28946,26885>>,<<45572,546>>,<<46795,53116>>,<<52598,39979>>,<<21265,16064>>,<<5696,58323>>,<<14507,48480>>,<<9543,44528>>,<<47672,8348>>,<<63302,52854>>,<<30639,41413>>,<<8309,24672>>,
  <<34251,65102>>,<<35560,36312>>,<<31402,63920>>,<<19705,43646>>,<<6472,49756>>,<<763,35468>>,<<451,27364>>,<<55019,57849>>,<<37076,63593>>,<<42588,56992>>,<<16137,9517>>,<<49672,59039>>,
  <<46926,24882>>,<<52855,57947>>,<<22415,57315>>,<<15043,29414>>>>
\* RFC 1319: permutation from the digits of pi
MD2_S ==
  <<41,46,67,201,162,216,124,1,61,54,84,161,
  236,240,6,19,98,167,5,243,192,199,115,140,
  152,147,43,217,188,76,130,202,30,155,87,60,
  253,212,224,22,103,66,111,24,138,23,229,18,
  190,78,196,214,218,158,222,73,160,251,245,142,
  187,47,238,122,169,104,121,145,21,178,7,63,
  148,194,16,137,11,34,95,33,128,127,93,154,
  90,144,50,39,53,62,204,231,191,247,151,3,
  255,25,48,179,72,165,181,209,215,94,146,42,
  172,86,170,198,79,184,56,210,150,164,125,182,
  118,252,107,226,156,116,4,241,69,157,112,89,
  100,113,135,32,134,91,207,101,230,45,168,2,
  27,96,37,173,174,176,185,246,28,70,97,105,
  52,64,126,15,85,71,163,35,221,81,175,58,
  195,92,249,206,186,197,234,38,44,83,13,110,
  133,40,132,9,211,223,205,244,65,129,77,82,
  106,220,55,200,108,193,171,250,36,225,123,8,
  12,189,177,74,120,136,149,139,227,99,232,109,
  233,203,213,254,59,0,29,57,242,239,183,14,
  102,88,208,228,166,119,114,248,235,117,75,10,
  49,68,80,180,143,237,31,26,219,153,141,51,
  159,17,131,20>>
\* FIPS 197: affine map of the inverse in GF(2^8)
AES_S ==
  <<99,124,119,123,242,107,111,197,48,1,103,43,
  254,215,171,118,202,130,201,125,250,89,71,240,
  173,212,162,175,156,164,114,192,183,253,147,38,
  54,63,247,204,52,165,229,241,113,216,49,21,
  4,199,35,195,24,150,5,154,7,18,128,226,
  235,39,178,117,9,131,44,26,27,110,90,160,
  82,59,214,179,41,227,47,132,83,209,0,237,
  32,252,177,91,106,203,190,57,74,76,88,207,
  208,239,170,251,67,77,51,133,69,249,2,127,
  80,60,159,168,81,163,64,143,146,157,56,245,
  188,182,218,33,16,255,243,210,205,12,19,236,
  95,151,68,23,196,167,126,61,100,93,25,115,
  96,129,79,220,34,42,144,136,70,238,184,20,
  222,94,11,219,224,50,58,10,73,6,36,92,
  194,211,172,98,145,149,228,121,231,200,55,109,
  141,213,78,169,108,86,244,234,101,122,174,8,
  186,120,37,46,28,166,180,198,232,221,116,31,
  75,189,139,138,112,62,181,102,72,3,246,14,
  97,53,87,185,134,193,29,158,225,248,152,17,
  105,217,142,148,155,30,135,233,206,85,40,223,
  140,161,137,13,191,230,66,104,65,153,45,15,
  176,84,187,22>>
AES_SI ==
  <<82,9,106,213,48,54,165,56,191,64,163,158,
  129,243,215,251,124,227,57,130,155,47,255,135,
  52,142,67,68,196,222,233,203,84,123,148,50,
  166,194,35,61,238,76,149,11,66,250,195,78,
  8,46,161,102,40,217,36,178,118,91,162,73,
  109,139,209,37,114,248,246,100,134,104,152,22,
  212,164,92,204,93,101,182,146,108,112,72,80,
  253,237,185,218,94,21,70,87,167,141,157,132,
  144,216,171,0,140,188,211,10,247,228,88,5,
  184,179,69,6,208,44,30,143,202,63,15,2,
  193,175,189,3,1,19,138,107,58,145,17,65,
  79,103,220,234,151,242,207,206,240,180,230,115,
  150,172,116,34,231,173,53,133,226,249,55,232,
  28,117,223,110,71,241,26,113,29,41,197,137,
  111,183,98,14,170,24,190,27,252,86,62,75,
  198,210,121,32,154,219,192,254,120,205,90,244,
  31,221,168,51,136,7,199,49,177,18,16,89,
  39,128,236,95,96,81,127,169,25,181,74,13,
  45,229,122,159,147,201,156,239,160,224,59,77,
  174,42,245,176,200,235,187,60,131,83,153,97,
  23,43,4,126,186,119,214,38,225,105,20,99,
  85,33,12,125>>
\* multiplication by x
XT ==
  <<0,2,4,6,8,10,12,14,16,18,20,22,
  24,26,28,30,32,34,36,38,40,42,44,46,
  48,50,52,54,56,58,60,62,64,66,68,70,
  72,74,76,78,80,82,84,86,88,90,92,94,
  96,98,100,102,104,106,108,110,112,114,116,118,
  120,122,124,126,128,130,132,134,136,138,140,142,
  144,146,148,150,152,154,156,158,160,162,164,166,
  168,170,172,174,176,178,180,182,184,186,188,190,
  192,194,196,198,200,202,204,206,208,210,212,214,
  216,218,220,222,224,226,228,230,232,234,236,238,
  240,242,244,246,248,250,252,254,27,25,31,29,
  19,17,23,21,11,9,15,13,3,1,7,5,
  59,57,63,61,51,49,55,53,43,41,47,45,
  35,33,39,37,91,89,95,93,83,81,87,85,
  75,73,79,77,67,65,71,69,123,121,127,125,
  115,113,119,117,107,105,111,109,99,97,103,101,
  155,153,159,157,147,145,151,149,139,137,143,141,
  131,129,135,133,187,185,191,189,179,177,183,181,
  171,169,175,173,163,161,167,165,219,217,223,221,
  211,209,215,213,203,201,207,205,195,193,199,197,
  251,249,255,253,243,241,247,245,235,233,239,237,
  227,225,231,229>>
\* RFC 5794
ARIA_S2 ==
  <<226,78,84,252,148,194,74,204,98,13,106,70,
  60,77,139,209,94,250,100,203,180,151,190,43,
  188,119,46,3,211,25,89,193,29,6,65,107,
  85,240,153,105,234,156,24,174,99,223,231,187,
  0,115,102,251,150,76,133,228,58,9,69,170,
  15,238,16,235,45,127,244,41,172,207,173,145,
  141,120,200,149,249,47,206,205,8,122,136,56,
  92,131,42,40,71,219,184,199,147,164,18,83,
  255,135,14,49,54,33,88,72,1,142,55,116,
  50,202,233,177,183,171,12,215,196,86,66,38,
  7,152,96,217,182,185,17,64,236,32,140,189,
  160,201,132,4,73,35,241,79,80,31,19,220,
  216,192,158,87,227,195,123,101,59,2,143,62,
  232,37,146,229,21,221,253,23,169,191,212,154,
  126,197,57,103,254,118,157,67,167,225,208,245,
  104,242,27,52,112,5,163,138,213,121,134,168,
  48,198,81,75,30,166,39,246,53,210,110,36,
  22,130,95,218,230,117,162,239,44,178,28,159,
  93,111,128,10,114,68,155,108,144,11,91,51,
  125,90,82,243,97,161,247,176,214,63,124,109,
  237,20,224,165,61,34,179,248,137,222,113,26,
  175,186,181,129>>
ARIA_S2I ==
  <<48,104,153,27,135,185,33,120,80,57,219,225,
  114,9,98,60,62,126,94,142,241,160,204,163,
  42,29,251,182,214,32,196,141,129,101,245,137,
  203,157,119,198,87,67,86,23,212,64,26,77,
  192,99,108,227,183,200,100,106,83,170,56,152,
  12,244,155,237,127,34,118,175,221,58,11,88,
  103,136,6,195,53,13,1,139,140,194,230,95,
  2,36,117,147,102,30,229,226,84,216,16,206,
  122,232,8,44,18,151,50,171,180,39,10,35,
  223,239,202,217,184,250,220,49,107,209,173,25,
  73,189,81,150,238,228,168,65,218,255,205,85,
  134,54,190,97,82,248,187,14,130,72,105,154,
  224,71,158,92,4,75,52,21,121,38,167,222,
  41,174,146,215,132,233,210,186,93,243,197,176,
  191,164,59,113,68,70,43,252,235,111,213,246,
  20,254,124,112,90,125,253,47,24,131,22,165,
  145,31,5,149,116,169,193,91,74,133,109,19,
  7,79,78,69,178,15,201,28,166,188,236,115,
  144,123,207,89,143,161,249,45,242,177,0,148,
  55,159,208,46,156,110,40,63,128,240,61,211,
  37,138,181,231,66,179,199,234,247,76,17,51,
  3,162,172,96>>
\* RFC 4269
SEED_S1 ==
  <<169,133,214,211,84,29,172,37,93,67,24,30,
  81,252,202,99,40,68,32,157,224,226,200,23,
  165,143,3,123,187,19,210,238,112,140,63,168,
  50,221,246,116,236,149,11,87,92,91,189,1,
  36,28,115,152,16,204,242,217,44,231,114,131,
  155,209,134,201,96,80,163,235,13,182,158,79,
  183,90,198,120,166,18,175,213,97,195,180,65,
  82,125,141,8,31,153,0,25,4,83,247,225,
  253,118,47,39,176,139,14,171,162,110,147,77,
  105,124,9,10,191,239,243,197,135,20,254,100,
  222,46,75,26,6,33,107,102,2,245,146,138,
  12,179,126,208,122,71,150,229,38,128,173,223,
  161,48,55,174,54,21,34,56,244,167,69,76,
  129,233,132,151,53,203,206,60,113,17,199,137,
  117,251,218,248,148,89,130,196,255,73,57,103,
  192,207,215,184,15,142,66,35,145,108,219,164,
  52,241,72,194,111,61,45,64,190,62,188,193,
  170,186,78,85,59,220,104,127,156,216,74,86,
  119,160,237,70,181,43,101,250,227,185,177,159,
  94,249,230,178,49,234,109,95,228,240,205,136,
  22,58,88,212,98,41,7,51,232,27,5,121,
  144,106,42,154>>
SEED_S2 ==
  <<56,232,45,166,207,222,179,184,175,96,85,199,
  68,111,107,91,195,98,51,181,41,160,226,167,
  211,145,17,6,28,188,54,75,239,136,108,168,
  23,196,22,244,194,69,225,214,63,61,142,152,
  40,78,246,62,165,249,13,223,216,43,102,122,
  39,47,241,114,66,212,65,192,115,103,172,139,
  247,173,128,31,202,44,170,52,210,11,238,233,
  93,148,24,248,87,174,8,197,19,205,134,185,
  255,125,193,49,245,138,106,177,209,32,215,2,
  34,4,104,113,7,219,157,153,97,190,230,89,
  221,81,144,220,154,163,171,208,129,15,71,26,
  227,236,141,191,150,123,92,162,161,99,35,77,
  200,158,156,58,12,46,186,110,159,90,242,146,
  243,73,120,204,21,251,112,117,127,53,16,3,
  100,109,198,116,213,180,234,9,118,25,254,64,
  18,224,189,5,250,1,240,42,94,169,86,67,
  133,20,137,155,176,229,72,121,151,252,30,130,
  33,140,27,95,119,84,178,29,37,79,0,70,
  237,88,82,235,126,218,201,253,48,149,101,60,
  182,228,187,124,14,80,57,38,50,132,105,147,
  55,231,36,164,203,83,10,135,217,76,131,143,
  206,59,74,183>>
SEED_KC ==
  <<<<40503,31161>>,<<15470,62323>>,<<30941,59110>>,<<61883,52684>>,<<58231,39833>>,<<50927,14131>>,<<36318,28263>>,<<7100,56527>>,<<14201,47518>>,<<28403,29500>>,<<56806,59000>>,<<48077,52465>>,
  <<30619,39395>>,<<61239,13254>>,<<56942,26509>>,<<48348,53019>>>>
\* fractional part of 1/pi
ARIA_C ==
  <<<<81,124,193,183,39,34,10,148,254,19,171,232,
  250,154,110,224>>,<<109,177,74,204,158,33,200,32,255,40,177,213,
  239,93,226,176>>,<<219,146,55,29,33,38,233,112,3,36,151,117,
  4,232,201,14>>>>
====

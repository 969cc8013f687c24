// generated by h01_gen.py
static const uint32_t tab1[1] = {0};
static const uint32_t tab2[7] = {0,1,2,3,16,32,48};
static const uint32_t tab4[91] = {0,1,2,3,16,32,48,17,33,49,65,81,18,34,50,66,82,19,35,51,67,83,256,512,768,257,513,769,258,514,770,259,515,771,272,528,784,1040,1296,288,544,800,1056,1312,304,560,816,1072,1328,4096,8192,12288,4097,8193,12289,4098,8194,12290,4099,8195,12291,4100,8196,12292,4101,8197,12293,4112,8208,12304,4128,8224,12320,4144,8240,12336,4352,8448,12544,16640,20736,4608,8704,12800,16896,20992,4864,8960,13056,17152,21248};
static const uint32_t tab8q[4001] = {0,1,2,16,48,17,49,65,18,50,66,256,512,257,513,258,514,272,528,1296,304,560,1328,273,529,1297,1553,305,561,1329,1585,321,577,1345,1601,274,530,1298,1554,306,562,1330,1586,322,578,1346,1602,4096,12288,4097,12289,4098,12290,4112,12304,4144,12336,4113,12305,4145,12337,4161,12353,4114,12306,4146,12338,4162,12354,4352,12544,16640,4608,12800,16896,4353,12545,16641,4609,12801,16897,4354,12546,16642,4610,12802,16898,4368,12560,16656,28944,4624,12816,16912,29200,5392,13584,17680,29968,4400,12592,16688,28976,4656,12848,16944,29232,5424,13616,17712,30000,4369,12561,16657,28945,33041,4625,12817,16913,29201,33297,5393,13585,17681,29969,34065,5649,13841,17937,30225,34321,4401,12593,16689,28977,33073,4657,12849,16945,29233,33329,5425,13617,17713,30001,34097,5681,13873,17969,30257,34353,4417,12609,16705,28993,33089,4673,12865,16961,29249,33345,5441,13633,17729,30017,34113,5697,13889,17985,30273,34369,4370,12562,16658,28946,33042,4626,12818,16914,29202,33298,5394,13586,17682,29970,34066,5650,13842,17938,30226,34322,4402,12594,16690,28978,33074,4658,12850,16946,29234,33330,5426,13618,17714,30002,34098,5682,13874,17970,30258,34354,4418,12610,16706,28994,33090,4674,12866,16962,29250,33346,5442,13634,17730,30018,34114,5698,13890,17986,30274,34370,65536,131072,65537,131073,65538,131074,65552,131088,65584,131120,65553,131089,65585,131121,65601,131137,65554,131090,65586,131122,65602,131138,65792,131328,66048,131584,65793,131329,66049,131585,65794,131330,66050,131586,65808,131344,66064,131600,66832,132368,65840,131376,66096,131632,66864,132400,65809,131345,66065,131601,66833,132369,67089,132625,65841,131377,66097,131633,66865,132401,67121,132657,65857,131393,66113,131649,66881,132417,67137,132673,65810,131346,66066,131602,66834,132370,67090,132626,65842,131378,66098,131634,66866,132402,67122,132658,65858,131394,66114,131650,66882,132418,67138,132674,69632,135168,331776,77824,143360,339968,69633,135169,331777,77825,143361,339969,69634,135170,331778,77826,143362,339970,69648,135184,331792,77840,143376,339984,69680,135216,331824,77872,143408,340016,69649,135185,331793,77841,143377,339985,69681,135217,331825,77873,143409,340017,69697,135233,331841,77889,143425,340033,69650,135186,331794,77842,143378,339986,69682,135218,331826,77874,143410,340018,69698,135234,331842,77890,143426,340034,69888,135424,332032,397568,78080,143616,340224,405760,82176,147712,344320,409856,70144,135680,332288,397824,78336,143872,340480,406016,82432,147968,344576,410112,69889,135425,332033,397569,78081,143617,340225,405761,82177,147713,344321,409857,70145,135681,332289,397825,78337,143873,340481,406017,82433,147969,344577,410113,69890,135426,332034,397570,78082,143618,340226,405762,82178,147714,344322,409858,70146,135682,332290,397826,78338,143874,340482,406018,82434,147970,344578,410114,69904,135440,332048,397584,594192,78096,143632,340240,405776,602384,82192,147728,344336,409872,606480,94480,160016,356624,422160,618768,70160,135696,332304,397840,594448,78352,143888,340496,406032,602640,82448,147984,344592,410128,606736,94736,160272,356880,422416,619024,70928,136464,333072,398608,595216,79120,144656,341264,406800,603408,83216,148752,345360,410896,607504,95504,161040,357648,423184,619792,69936,135472,332080,397616,594224,78128,143664,340272,405808,602416,82224,147760,344368,409904,606512,94512,160048,356656,422192,618800,70192,135728,332336,397872,594480,78384,143920,340528,406064,602672,82480,148016,344624,410160,606768,94768,160304,356912,422448,619056,70960,136496,333104,398640,595248,79152,144688,341296,406832,603440,83248,148784,345392,410928,607536,95536,161072,357680,423216,619824,1048576,3145728,1048577,3145729,1048578,3145730,1048592,3145744,1048624,3145776,1048593,3145745,1048625,3145777,1048641,3145793,1048594,3145746,1048626,3145778,1048642,3145794,1048832,3145984,1049088,3146240,1048833,3145985,1049089,3146241,1048834,3145986,1049090,3146242,1048848,3146000,1049104,3146256,1049872,3147024,1048880,3146032,1049136,3146288,1049904,3147056,1048849,3146001,1049105,3146257,1049873,3147025,1050129,3147281,1048881,3146033,1049137,3146289,1049905,3147057,1050161,3147313,1048897,3146049,1049153,3146305,1049921,3147073,1050177,3147329,1048850,3146002,1049106,3146258,1049874,3147026,1050130,3147282,1048882,3146034,1049138,3146290,1049906,3147058,1050162,3147314,1048898,3146050,1049154,3146306,1049922,3147074,1050178,3147330,1052672,3149824,1060864,3158016,1052673,3149825,1060865,3158017,1052674,3149826,1060866,3158018,1052688,3149840,1060880,3158032,1052720,3149872,1060912,3158064,1052689,3149841,1060881,3158033,1052721,3149873,1060913,3158065,1052737,3149889,1060929,3158081,1052690,3149842,1060882,3158034,1052722,3149874,1060914,3158066,1052738,3149890,1060930,3158082,1052928,3150080,1061120,3158272,1065216,3162368,1053184,3150336,1061376,3158528,1065472,3162624,1052929,3150081,1061121,3158273,1065217,3162369,1053185,3150337,1061377,3158529,1065473,3162625,1052930,3150082,1061122,3158274,1065218,3162370,1053186,3150338,1061378,3158530,1065474,3162626,1052944,3150096,1061136,3158288,1065232,3162384,1077520,3174672,1053200,3150352,1061392,3158544,1065488,3162640,1077776,3174928,1053968,3151120,1062160,3159312,1066256,3163408,1078544,3175696,1052976,3150128,1061168,3158320,1065264,3162416,1077552,3174704,1053232,3150384,1061424,3158576,1065520,3162672,1077808,3174960,1054000,3151152,1062192,3159344,1066288,3163440,1078576,3175728,1114112,3211264,4259840,1179648,3276800,4325376,1114113,3211265,4259841,1179649,3276801,4325377,1114114,3211266,4259842,1179650,3276802,4325378,1114128,3211280,4259856,1179664,3276816,4325392,1114160,3211312,4259888,1179696,3276848,4325424,1114129,3211281,4259857,1179665,3276817,4325393,1114161,3211313,4259889,1179697,3276849,4325425,1114177,3211329,4259905,1179713,3276865,4325441,1114130,3211282,4259858,1179666,3276818,4325394,1114162,3211314,4259890,1179698,3276850,4325426,1114178,3211330,4259906,1179714,3276866,4325442,1114368,3211520,4260096,1179904,3277056,4325632,1114624,3211776,4260352,1180160,3277312,4325888,1114369,3211521,4260097,1179905,3277057,4325633,1114625,3211777,4260353,1180161,3277313,4325889,1114370,3211522,4260098,1179906,3277058,4325634,1114626,3211778,4260354,1180162,3277314,4325890,1114384,3211536,4260112,1179920,3277072,4325648,1114640,3211792,4260368,1180176,3277328,4325904,1115408,3212560,4261136,1180944,3278096,4326672,1114416,3211568,4260144,1179952,3277104,4325680,1114672,3211824,4260400,1180208,3277360,4325936,1115440,3212592,4261168,1180976,3278128,4326704,1118208,3215360,4263936,7409664,1183744,3280896,4329472,7475200,1380352,3477504,4526080,7671808,1126400,3223552,4272128,7417856,1191936,3289088,4337664,7483392,1388544,3485696,4534272,7680000,1118209,3215361,4263937,7409665,1183745,3280897,4329473,7475201,1380353,3477505,4526081,7671809,1126401,3223553,4272129,7417857,1191937,3289089,4337665,7483393,1388545,3485697,4534273,7680001,1118210,3215362,4263938,7409666,1183746,3280898,4329474,7475202,1380354,3477506,4526082,7671810,1126402,3223554,4272130,7417858,1191938,3289090,4337666,7483394,1388546,3485698,4534274,7680002,1118224,3215376,4263952,7409680,1183760,3280912,4329488,7475216,1380368,3477520,4526096,7671824,1126416,3223568,4272144,7417872,1191952,3289104,4337680,7483408,1388560,3485712,4534288,7680016,1118256,3215408,4263984,7409712,1183792,3280944,4329520,7475248,1380400,3477552,4526128,7671856,1126448,3223600,4272176,7417904,1191984,3289136,4337712,7483440,1388592,3485744,4534320,7680048,1118464,3215616,4264192,7409920,8458496,1184000,3281152,4329728,7475456,8524032,1380608,3477760,4526336,7672064,8720640,1446144,3543296,4591872,7737600,8786176,1126656,3223808,4272384,7418112,8466688,1192192,3289344,4337920,7483648,8532224,1388800,3485952,4534528,7680256,8728832,1454336,3551488,4600064,7745792,8794368,1130752,3227904,4276480,7422208,8470784,1196288,3293440,4342016,7487744,8536320,1392896,3490048,4538624,7684352,8732928,1458432,3555584,4604160,7749888,8798464,1118720,3215872,4264448,7410176,8458752,1184256,3281408,4329984,7475712,8524288,1380864,3478016,4526592,7672320,8720896,1446400,3543552,4592128,7737856,8786432,1126912,3224064,4272640,7418368,8466944,1192448,3289600,4338176,7483904,8532480,1389056,3486208,4534784,7680512,8729088,1454592,3551744,4600320,7746048,8794624,1131008,3228160,4276736,7422464,8471040,1196544,3293696,4342272,7488000,8536576,1393152,3490304,4538880,7684608,8733184,1458688,3555840,4604416,7750144,8798720,16777216,33554432,16777217,33554433,16777218,33554434,16777232,33554448,16777264,33554480,16777233,33554449,16777265,33554481,16777281,33554497,16777234,33554450,16777266,33554482,16777282,33554498,16777472,33554688,16777728,33554944,16777473,33554689,16777729,33554945,16777474,33554690,16777730,33554946,16777488,33554704,16777744,33554960,16778512,33555728,16777520,33554736,16777776,33554992,16778544,33555760,16777489,33554705,16777745,33554961,16778513,33555729,16778769,33555985,16777521,33554737,16777777,33554993,16778545,33555761,16778801,33556017,16777537,33554753,16777793,33555009,16778561,33555777,16778817,33556033,16777490,33554706,16777746,33554962,16778514,33555730,16778770,33555986,16777522,33554738,16777778,33554994,16778546,33555762,16778802,33556018,16777538,33554754,16777794,33555010,16778562,33555778,16778818,33556034,16781312,33558528,16789504,33566720,16781313,33558529,16789505,33566721,16781314,33558530,16789506,33566722,16781328,33558544,16789520,33566736,16781360,33558576,16789552,33566768,16781329,33558545,16789521,33566737,16781361,33558577,16789553,33566769,16781377,33558593,16789569,33566785,16781330,33558546,16789522,33566738,16781362,33558578,16789554,33566770,16781378,33558594,16789570,33566786,16781568,33558784,16789760,33566976,16793856,33571072,16781824,33559040,16790016,33567232,16794112,33571328,16781569,33558785,16789761,33566977,16793857,33571073,16781825,33559041,16790017,33567233,16794113,33571329,16781570,33558786,16789762,33566978,16793858,33571074,16781826,33559042,16790018,33567234,16794114,33571330,16781584,33558800,16789776,33566992,16793872,33571088,16806160,33583376,16781840,33559056,16790032,33567248,16794128,33571344,16806416,33583632,16782608,33559824,16790800,33568016,16794896,33572112,16807184,33584400,16781616,33558832,16789808,33567024,16793904,33571120,16806192,33583408,16781872,33559088,16790064,33567280,16794160,33571376,16806448,33583664,16782640,33559856,16790832,33568048,16794928,33572144,16807216,33584432,16842752,33619968,16908288,33685504,16842753,33619969,16908289,33685505,16842754,33619970,16908290,33685506,16842768,33619984,16908304,33685520,16842800,33620016,16908336,33685552,16842769,33619985,16908305,33685521,16842801,33620017,16908337,33685553,16842817,33620033,16908353,33685569,16842770,33619986,16908306,33685522,16842802,33620018,16908338,33685554,16842818,33620034,16908354,33685570,16843008,33620224,16908544,33685760,16843264,33620480,16908800,33686016,16843009,33620225,16908545,33685761,16843265,33620481,16908801,33686017,16843010,33620226,16908546,33685762,16843266,33620482,16908802,33686018,16843024,33620240,16908560,33685776,16843280,33620496,16908816,33686032,16844048,33621264,16909584,33686800,16843056,33620272,16908592,33685808,16843312,33620528,16908848,33686064,16844080,33621296,16909616,33686832,16846848,33624064,16912384,33689600,17108992,33886208,16855040,33632256,16920576,33697792,17117184,33894400,16846849,33624065,16912385,33689601,17108993,33886209,16855041,33632257,16920577,33697793,17117185,33894401,16846850,33624066,16912386,33689602,17108994,33886210,16855042,33632258,16920578,33697794,17117186,33894402,16846864,33624080,16912400,33689616,17109008,33886224,16855056,33632272,16920592,33697808,17117200,33894416,16846896,33624112,16912432,33689648,17109040,33886256,16855088,33632304,16920624,33697840,17117232,33894448,16847104,33624320,16912640,33689856,17109248,33886464,17174784,33952000,16855296,33632512,16920832,33698048,17117440,33894656,17182976,33960192,16859392,33636608,16924928,33702144,17121536,33898752,17187072,33964288,16847360,33624576,16912896,33690112,17109504,33886720,17175040,33952256,16855552,33632768,16921088,33698304,17117696,33894912,17183232,33960448,16859648,33636864,16925184,33702400,17121792,33899008,17187328,33964544,17825792,34603008,84934656,19922944,36700160,87031808,17825793,34603009,84934657,19922945,36700161,87031809,17825794,34603010,84934658,19922946,36700162,87031810,17825808,34603024,84934672,19922960,36700176,87031824,17825840,34603056,84934704,19922992,36700208,87031856,17825809,34603025,84934673,19922961,36700177,87031825,17825841,34603057,84934705,19922993,36700209,87031857,17825857,34603073,84934721,19923009,36700225,87031873,17825810,34603026,84934674,19922962,36700178,87031826,17825842,34603058,84934706,19922994,36700210,87031858,17825858,34603074,84934722,19923010,36700226,87031874,17826048,34603264,84934912,19923200,36700416,87032064,17826304,34603520,84935168,19923456,36700672,87032320,17826049,34603265,84934913,19923201,36700417,87032065,17826305,34603521,84935169,19923457,36700673,87032321,17826050,34603266,84934914,19923202,36700418,87032066,17826306,34603522,84935170,19923458,36700674,87032322,17826064,34603280,84934928,19923216,36700432,87032080,17826320,34603536,84935184,19923472,36700688,87032336,17827088,34604304,84935952,19924240,36701456,87033104,17826096,34603312,84934960,19923248,36700464,87032112,17826352,34603568,84935216,19923504,36700720,87032368,17827120,34604336,84935984,19924272,36701488,87033136,17829888,34607104,84938752,19927040,36704256,87035904,17838080,34615296,84946944,19935232,36712448,87044096,17829889,34607105,84938753,19927041,36704257,87035905,17838081,34615297,84946945,19935233,36712449,87044097,17829890,34607106,84938754,19927042,36704258,87035906,17838082,34615298,84946946,19935234,36712450,87044098,17829904,34607120,84938768,19927056,36704272,87035920,17838096,34615312,84946960,19935248,36712464,87044112,17829936,34607152,84938800,19927088,36704304,87035952,17838128,34615344,84946992,19935280,36712496,87044144,17830144,34607360,84939008,19927296,36704512,87036160,17838336,34615552,84947200,19935488,36712704,87044352,17842432,34619648,84951296,19939584,36716800,87048448,17830400,34607616,84939264,19927552,36704768,87036416,17838592,34615808,84947456,19935744,36712960,87044608,17842688,34619904,84951552,19939840,36717056,87048704,17891328,34668544,85000192,101777408,19988480,36765696,87097344,103874560,21037056,37814272,88145920,104923136,17956864,34734080,85065728,101842944,20054016,36831232,87162880,103940096,21102592,37879808,88211456,104988672,17891329,34668545,85000193,101777409,19988481,36765697,87097345,103874561,21037057,37814273,88145921,104923137,17956865,34734081,85065729,101842945,20054017,36831233,87162881,103940097,21102593,37879809,88211457,104988673,17891330,34668546,85000194,101777410,19988482,36765698,87097346,103874562,21037058,37814274,88145922,104923138,17956866,34734082,85065730,101842946,20054018,36831234,87162882,103940098,21102594,37879810,88211458,104988674,17891344,34668560,85000208,101777424,19988496,36765712,87097360,103874576,21037072,37814288,88145936,104923152,17956880,34734096,85065744,101842960,20054032,36831248,87162896,103940112,21102608,37879824,88211472,104988688,17891376,34668592,85000240,101777456,19988528,36765744,87097392,103874608,21037104,37814320,88145968,104923184,17956912,34734128,85065776,101842992,20054064,36831280,87162928,103940144,21102640,37879856,88211504,104988720,17891584,34668800,85000448,101777664,19988736,36765952,87097600,103874816,21037312,37814528,88146176,104923392,17957120,34734336,85065984,101843200,20054272,36831488,87163136,103940352,21102848,37880064,88211712,104988928,17891840,34669056,85000704,101777920,19988992,36766208,87097856,103875072,21037568,37814784,88146432,104923648,17957376,34734592,85066240,101843456,20054528,36831744,87163392,103940608,21103104,37880320,88211968,104989184,17895424,34672640,85004288,101781504,152113152,19992576,36769792,87101440,103878656,154210304,21041152,37818368,88150016,104927232,155258880,24186880,40964096,91295744,108072960,158404608,17960960,34738176,85069824,101847040,152178688,20058112,36835328,87166976,103944192,154275840,21106688,37883904,88215552,104992768,155324416,24252416,41029632,91361280,108138496,158470144,18157568,34934784,85266432,102043648,152375296,20254720,37031936,87363584,104140800,154472448,21303296,38080512,88412160,105189376,155521024,24449024,41226240,91557888,108335104,158666752,17903616,34680832,85012480,101789696,152121344,20000768,36777984,87109632,103886848,154218496,21049344,37826560,88158208,104935424,155267072,24195072,40972288,91303936,108081152,158412800,17969152,34746368,85078016,101855232,152186880,20066304,36843520,87175168,103952384,154284032,21114880,37892096,88223744,105000960,155332608,24260608,41037824,91369472,108146688,158478336,18165760,34942976,85274624,102051840,152383488,20262912,37040128,87371776,104148992,154480640,21311488,38088704,88420352,105197568,155529216,24457216,41234432,91566080,108343296,158674944,268435456,805306368,268435457,805306369,268435458,805306370,268435461,805306373,268435472,805306384,268435504,805306416,268435473,805306385,268435505,805306417,268435521,805306433,268435569,805306481,268435474,805306386,268435506,805306418,268435522,805306434,268435570,805306482,268435477,805306389,268435509,805306421,268435525,805306437,268435573,805306485,268435712,805306624,268435968,805306880,268435713,805306625,268435969,805306881,268435714,805306626,268435970,805306882,268435717,805306629,268435973,805306885,268435728,805306640,268435984,805306896,268436752,805307664,268435760,805306672,268436016,805306928,268436784,805307696,268435729,805306641,268435985,805306897,268436753,805307665,268437009,805307921,268437777,805308689,268435761,805306673,268436017,805306929,268436785,805307697,268437041,805307953,268437809,805308721,268435777,805306689,268436033,805306945,268436801,805307713,268437057,805307969,268437825,805308737,268435825,805306737,268436081,805306993,268436849,805307761,268437105,805308017,268437873,805308785,268435730,805306642,268435986,805306898,268436754,805307666,268437010,805307922,268437778,805308690,268435762,805306674,268436018,805306930,268436786,805307698,268437042,805307954,268437810,805308722,268435778,805306690,268436034,805306946,268436802,805307714,268437058,805307970,268437826,805308738,268435826,805306738,268436082,805306994,268436850,805307762,268437106,805308018,268437874,805308786,268435733,805306645,268435989,805306901,268436757,805307669,268437013,805307925,268437781,805308693,268435765,805306677,268436021,805306933,268436789,805307701,268437045,805307957,268437813,805308725,268435781,805306693,268436037,805306949,268436805,805307717,268437061,805307973,268437829,805308741,268435829,805306741,268436085,805306997,268436853,805307765,268437109,805308021,268437877,805308789,268439552,805310464,268447744,805318656,268439553,805310465,268447745,805318657,268439554,805310466,268447746,805318658,268439557,805310469,268447749,805318661,268439568,805310480,268447760,805318672,268439600,805310512,268447792,805318704,268439569,805310481,268447761,805318673,268439601,805310513,268447793,805318705,268439617,805310529,268447809,805318721,268439665,805310577,268447857,805318769,268439570,805310482,268447762,805318674,268439602,805310514,268447794,805318706,268439618,805310530,268447810,805318722,268439666,805310578,268447858,805318770,268439573,805310485,268447765,805318677,268439605,805310517,268447797,805318709,268439621,805310533,268447813,805318725,268439669,805310581,268447861,805318773,268439808,805310720,268448000,805318912,268452096,805323008,268440064,805310976,268448256,805319168,268452352,805323264,268439809,805310721,268448001,805318913,268452097,805323009,268440065,805310977,268448257,805319169,268452353,805323265,268439810,805310722,268448002,805318914,268452098,805323010,268440066,805310978,268448258,805319170,268452354,805323266,268439813,805310725,268448005,805318917,268452101,805323013,268440069,805310981,268448261,805319173,268452357,805323269,268439824,805310736,268448016,805318928,268452112,805323024,268464400,805335312,268440080,805310992,268448272,805319184,268452368,805323280,268464656,805335568,268440848,805311760,268449040,805319952,268453136,805324048,268465424,805336336,268439856,805310768,268448048,805318960,268452144,805323056,268464432,805335344,268440112,805311024,268448304,805319216,268452400,805323312,268464688,805335600,268440880,805311792,268449072,805319984,268453168,805324080,268465456,805336368,268500992,805371904,268566528,805437440,268500993,805371905,268566529,805437441,268500994,805371906,268566530,805437442,268500997,805371909,268566533,805437445,268501008,805371920,268566544,805437456,268501040,805371952,268566576,805437488,268501009,805371921,268566545,805437457,268501041,805371953,268566577,805437489,268501057,805371969,268566593,805437505,268501105,805372017,268566641,805437553,268501010,805371922,268566546,805437458,268501042,805371954,268566578,805437490,268501058,805371970,268566594,805437506,268501106,805372018,268566642,805437554,268501013,805371925,268566549,805437461,268501045,805371957,268566581,805437493,268501061,805371973,268566597,805437509,268501109,805372021,268566645,805437557,268501248,805372160,268566784,805437696,268501504,805372416,268567040,805437952,268501249,805372161,268566785,805437697,268501505,805372417,268567041,805437953,268501250,805372162,268566786,805437698,268501506,805372418,268567042,805437954,268501253,805372165,268566789,805437701,268501509,805372421,268567045,805437957,268501264,805372176,268566800,805437712,268501520,805372432,268567056,805437968,268502288,805373200,268567824,805438736,268501296,805372208,268566832,805437744,268501552,805372464,268567088,805438000,268502320,805373232,268567856,805438768,268505088,805376000,268570624,805441536,268767232,805638144,268513280,805384192,268578816,805449728,268775424,805646336,268505089,805376001,268570625,805441537,268767233,805638145,268513281,805384193,268578817,805449729,268775425,805646337,268505090,805376002,268570626,805441538,268767234,805638146,268513282,805384194,268578818,805449730,268775426,805646338,268505093,805376005,268570629,805441541,268767237,805638149,268513285,805384197,268578821,805449733,268775429,805646341,268505104,805376016,268570640,805441552,268767248,805638160,268513296,805384208,268578832,805449744,268775440,805646352,268505136,805376048,268570672,805441584,268767280,805638192,268513328,805384240,268578864,805449776,268775472,805646384,268505344,805376256,268570880,805441792,268767488,805638400,268833024,805703936,268513536,805384448,268579072,805449984,268775680,805646592,268841216,805712128,268517632,805388544,268583168,805454080,268779776,805650688,268845312,805716224,268505600,805376512,268571136,805442048,268767744,805638656,268833280,805704192,268513792,805384704,268579328,805450240,268775936,805646848,268841472,805712384,268517888,805388800,268583424,805454336,268780032,805650944,268845568,805716480,269484032,806354944,271581184,808452096,269484033,806354945,271581185,808452097,269484034,806354946,271581186,808452098,269484037,806354949,271581189,808452101,269484048,806354960,271581200,808452112,269484080,806354992,271581232,808452144,269484049,806354961,271581201,808452113,269484081,806354993,271581233,808452145,269484097,806355009,271581249,808452161,269484145,806355057,271581297,808452209,269484050,806354962,271581202,808452114,269484082,806354994,271581234,808452146,269484098,806355010,271581250,808452162,269484146,806355058,271581298,808452210,269484053,806354965,271581205,808452117,269484085,806354997,271581237,808452149,269484101,806355013,271581253,808452165,269484149,806355061,271581301,808452213,269484288,806355200,271581440,808452352,269484544,806355456,271581696,808452608,269484289,806355201,271581441,808452353,269484545,806355457,271581697,808452609,269484290,806355202,271581442,808452354,269484546,806355458,271581698,808452610,269484293,806355205,271581445,808452357,269484549,806355461,271581701,808452613,269484304,806355216,271581456,808452368,269484560,806355472,271581712,808452624,269485328,806356240,271582480,808453392,269484336,806355248,271581488,808452400,269484592,806355504,271581744,808452656,269485360,806356272,271582512,808453424,269488128,806359040,271585280,808456192,269496320,806367232,271593472,808464384,269488129,806359041,271585281,808456193,269496321,806367233,271593473,808464385,269488130,806359042,271585282,808456194,269496322,806367234,271593474,808464386,269488133,806359045,271585285,808456197,269496325,806367237,271593477,808464389,269488144,806359056,271585296,808456208,269496336,806367248,271593488,808464400,269488176,806359088,271585328,808456240,269496368,806367280,271593520,808464432,269488384,806359296,271585536,808456448,269496576,806367488,271593728,808464640,269500672,806371584,271597824,808468736,269488640,806359552,271585792,808456704,269496832,806367744,271593984,808464896,269500928,806371840,271598080,808468992,269549568,806420480,271646720,808517632,272695296,809566208,269615104,806486016,271712256,808583168,272760832,809631744,269549569,806420481,271646721,808517633,272695297,809566209,269615105,806486017,271712257,808583169,272760833,809631745,269549570,806420482,271646722,808517634,272695298,809566210,269615106,806486018,271712258,808583170,272760834,809631746,269549573,806420485,271646725,808517637,272695301,809566213,269615109,806486021,271712261,808583173,272760837,809631749,269549584,806420496,271646736,808517648,272695312,809566224,269615120,806486032,271712272,808583184,272760848,809631760,269549616,806420528,271646768,808517680,272695344,809566256,269615152,806486064,271712304,808583216,272760880,809631792,269549824,806420736,271646976,808517888,272695552,809566464,269615360,806486272,271712512,808583424,272761088,809632000,269550080,806420992,271647232,808518144,272695808,809566720,269615616,806486528,271712768,808583680,272761344,809632256,269553664,806424576,271650816,808521728,272699392,809570304,275845120,812716032,269619200,806490112,271716352,808587264,272764928,809635840,275910656,812781568,269815808,806686720,271912960,808783872,272961536,809832448,276107264,812978176,269561856,806432768,271659008,808529920,272707584,809578496,275853312,812724224,269627392,806498304,271724544,808595456,272773120,809644032,275918848,812789760,269824000,806694912,271921152,808792064,272969728,809840640,276115456,812986368,285212672,822083584,1090519040,301989888,838860800,1107296256,285212673,822083585,1090519041,301989889,838860801,1107296257,285212674,822083586,1090519042,301989890,838860802,1107296258,285212677,822083589,1090519045,301989893,838860805,1107296261,285212678,822083590,1090519046,301989894,838860806,1107296262,285212688,822083600,1090519056,301989904,838860816,1107296272,285212720,822083632,1090519088,301989936,838860848,1107296304,285212689,822083601,1090519057,301989905,838860817,1107296273,285212721,822083633,1090519089,301989937,838860849,1107296305,285212737,822083649,1090519105,301989953,838860865,1107296321,285212785,822083697,1090519153,301990001,838860913,1107296369,285212801,822083713,1090519169,301990017,838860929,1107296385,285212690,822083602,1090519058,301989906,838860818,1107296274,285212722,822083634,1090519090,301989938,838860850,1107296306,285212738,822083650,1090519106,301989954,838860866,1107296322,285212786,822083698,1090519154,301990002,838860914,1107296370,285212802,822083714,1090519170,301990018,838860930,1107296386,285212693,822083605,1090519061,301989909,838860821,1107296277,285212725,822083637,1090519093,301989941,838860853,1107296309,285212741,822083653,1090519109,301989957,838860869,1107296325,285212789,822083701,1090519157,301990005,838860917,1107296373,285212805,822083717,1090519173,301990021,838860933,1107296389,285212694,822083606,1090519062,301989910,838860822,1107296278,285212726,822083638,1090519094,301989942,838860854,1107296310,285212742,822083654,1090519110,301989958,838860870,1107296326,285212790,822083702,1090519158,301990006,838860918,1107296374,285212806,822083718,1090519174,301990022,838860934,1107296390,285212928,822083840,1090519296,301990144,838861056,1107296512,285213184,822084096,1090519552,301990400,838861312,1107296768,285212929,822083841,1090519297,301990145,838861057,1107296513,285213185,822084097,1090519553,301990401,838861313,1107296769,285212930,822083842,1090519298,301990146,838861058,1107296514,285213186,822084098,1090519554,301990402,838861314,1107296770,285212933,822083845,1090519301,301990149,838861061,1107296517,285213189,822084101,1090519557,301990405,838861317,1107296773,285212934,822083846,1090519302,301990150,838861062,1107296518,285213190,822084102,1090519558,301990406,838861318,1107296774,285212944,822083856,1090519312,301990160,838861072,1107296528,285213200,822084112,1090519568,301990416,838861328,1107296784,285213968,822084880,1090520336,301991184,838862096,1107297552,285212976,822083888,1090519344,301990192,838861104,1107296560,285213232,822084144,1090519600,301990448,838861360,1107296816,285214000,822084912,1090520368,301991216,838862128,1107297584,285216768,822087680,1090523136,301993984,838864896,1107300352,285224960,822095872,1090531328,302002176,838873088,1107308544,285216769,822087681,1090523137,301993985,838864897,1107300353,285224961,822095873,1090531329,302002177,838873089,1107308545,285216770,822087682,1090523138,301993986,838864898,1107300354,285224962,822095874,1090531330,302002178,838873090,1107308546,285216773,822087685,1090523141,301993989,838864901,1107300357,285224965,822095877,1090531333,302002181,838873093,1107308549,285216774,822087686,1090523142,301993990,838864902,1107300358,285224966,822095878,1090531334,302002182,838873094,1107308550,285216784,822087696,1090523152,301994000,838864912,1107300368,285224976,822095888,1090531344,302002192,838873104,1107308560,285216816,822087728,1090523184,301994032,838864944,1107300400,285225008,822095920,1090531376,302002224,838873136,1107308592,285217024,822087936,1090523392,301994240,838865152,1107300608,285225216,822096128,1090531584,302002432,838873344,1107308800,285229312,822100224,1090535680,302006528,838877440,1107312896,285217280,822088192,1090523648,301994496,838865408,1107300864,285225472,822096384,1090531840,302002688,838873600,1107309056,285229568,822100480,1090535936,302006784,838877696,1107313152,285278208,822149120,1090584576,302055424,838926336,1107361792,285343744,822214656,1090650112,302120960,838991872,1107427328,285278209,822149121,1090584577,302055425,838926337,1107361793,285343745,822214657,1090650113,302120961,838991873,1107427329,285278210,822149122,1090584578,302055426,838926338,1107361794,285343746,822214658,1090650114,302120962,838991874,1107427330,285278213,822149125,1090584581,302055429,838926341,1107361797,285343749,822214661,1090650117,302120965,838991877,1107427333,285278214,822149126,1090584582,302055430,838926342,1107361798,285343750,822214662,1090650118,302120966,838991878,1107427334,285278224,822149136,1090584592,302055440,838926352,1107361808,285343760,822214672,1090650128,302120976,838991888,1107427344,285278256,822149168,1090584624,302055472,838926384,1107361840,285343792,822214704,1090650160,302121008,838991920,1107427376,285278464,822149376,1090584832,302055680,838926592,1107362048,285344000,822214912,1090650368,302121216,838992128,1107427584,285278720,822149632,1090585088,302055936,838926848,1107362304,285344256,822215168,1090650624,302121472,838992384,1107427840,285282304,822153216,1090588672,302059520,838930432,1107365888,285347840,822218752,1090654208,302125056,838995968,1107431424,285544448,822415360,1090850816,302321664,839192576,1107628032,285290496,822161408,1090596864,302067712,838938624,1107374080,285356032,822226944,1090662400,302133248,839004160,1107439616,285552640,822423552,1090859008,302329856,839200768,1107636224,286261248,823132160,1091567616,1896873984,303038464,839909376,1108344832,1913651200,353370112,890241024,1158676480,1963982848,288358400,825229312,1093664768,1898971136,305135616,842006528,1110441984,1915748352,355467264,892338176,1160773632,1966080000,286261249,823132161,1091567617,1896873985,303038465,839909377,1108344833,1913651201,353370113,890241025,1158676481,1963982849,288358401,825229313,1093664769,1898971137,305135617,842006529,1110441985,1915748353,355467265,892338177,1160773633,1966080001,286261250,823132162,1091567618,1896873986,303038466,839909378,1108344834,1913651202,353370114,890241026,1158676482,1963982850,288358402,825229314,1093664770,1898971138,305135618,842006530,1110441986,1915748354,355467266,892338178,1160773634,1966080002,286261253,823132165,1091567621,1896873989,303038469,839909381,1108344837,1913651205,353370117,890241029,1158676485,1963982853,288358405,825229317,1093664773,1898971141,305135621,842006533,1110441989,1915748357,355467269,892338181,1160773637,1966080005,286261254,823132166,1091567622,1896873990,303038470,839909382,1108344838,1913651206,353370118,890241030,1158676486,1963982854,288358406,825229318,1093664774,1898971142,305135622,842006534,1110441990,1915748358,355467270,892338182,1160773638,1966080006,286261257,823132169,1091567625,1896873993,303038473,839909385,1108344841,1913651209,353370121,890241033,1158676489,1963982857,288358409,825229321,1093664777,1898971145,305135625,842006537,1110441993,1915748361,355467273,892338185,1160773641,1966080009,286261264,823132176,1091567632,1896874000,303038480,839909392,1108344848,1913651216,353370128,890241040,1158676496,1963982864,288358416,825229328,1093664784,1898971152,305135632,842006544,1110442000,1915748368,355467280,892338192,1160773648,1966080016,286261296,823132208,1091567664,1896874032,303038512,839909424,1108344880,1913651248,353370160,890241072,1158676528,1963982896,288358448,825229360,1093664816,1898971184,305135664,842006576,1110442032,1915748400,355467312,892338224,1160773680,1966080048,286261504,823132416,1091567872,1896874240,303038720,839909632,1108345088,1913651456,353370368,890241280,1158676736,1963983104,288358656,825229568,1093665024,1898971392,305135872,842006784,1110442240,1915748608,355467520,892338432,1160773888,1966080256,286261760,823132672,1091568128,1896874496,303038976,839909888,1108345344,1913651712,353370624,890241536,1158676992,1963983360,288358912,825229824,1093665280,1898971648,305136128,842007040,1110442496,1915748864,355467776,892338688,1160774144,1966080512,286265344,823136256,1091571712,1896878080,303042560,839913472,1108348928,1913655296,353374208,890245120,1158680576,1963986944,288362496,825233408,1093668864,1898975232,305139712,842010624,1110446080,1915752448,355471360,892342272,1160777728,1966084096,286273536,823144448,1091579904,1896886272,303050752,839921664,1108357120,1913663488,353382400,890253312,1158688768,1963995136,288370688,825241600,1093677056,1898983424,305147904,842018816,1110454272,1915760640,355479552,892350464,1160785920,1966092288,286326784,823197696,1091633152,1896939520,2165374976,303104000,839974912,1108410368,1913716736,2182152192,353435648,890306560,1158742016,1964048384,2232483840,370212864,907083776,1175519232,1980825600,2249261056,288423936,825294848,1093730304,1899036672,2167472128,305201152,842072064,1110507520,1915813888,2184249344,355532800,892403712,1160839168,1966145536,2234580992,372310016,909180928,1177616384,1982922752,2251358208,289472512,826343424,1094778880,1900085248,2168520704,306249728,843120640,1111556096,1916862464,2185297920,356581376,893452288,1161887744,1967194112,2235629568,373358592,910229504,1178664960,1983971328,2252406784,286392320,823263232,1091698688,1897005056,2165440512,303169536,840040448,1108475904,1913782272,2182217728,353501184,890372096,1158807552,1964113920,2232549376,370278400,907149312,1175584768,1980891136,2249326592,288489472,825360384,1093795840,1899102208,2167537664,305266688,842137600,1110573056,1915879424,2184314880,355598336,892469248,1160904704,1966211072,2234646528,372375552,909246464,1177681920,1982988288,2251423744,289538048,826408960,1094844416,1900150784,2168586240,306315264,843186176,1111621632,1916928000,2185363456,356646912,893517824,1161953280,1967259648,2235695104,373424128,910295040,1178730496,1984036864,2252472320};
static const uint32_t tab8[24259] = {0,1,2,3,16,32,48,17,33,49,65,81,18,34,50,66,82,19,35,51,67,83,256,512,768,257,513,769,258,514,770,259,515,771,272,528,784,1040,1296,288,544,800,1056,1312,304,560,816,1072,1328,273,529,785,1041,1297,1553,1809,289,545,801,1057,1313,1569,1825,305,561,817,1073,1329,1585,1841,321,577,833,1089,1345,1601,1857,337,593,849,1105,1361,1617,1873,274,530,786,1042,1298,1554,1810,290,546,802,1058,1314,1570,1826,306,562,818,1074,1330,1586,1842,322,578,834,1090,1346,1602,1858,338,594,850,1106,1362,1618,1874,275,531,787,1043,1299,1555,1811,291,547,803,1059,1315,1571,1827,307,563,819,1075,1331,1587,1843,323,579,835,1091,1347,1603,1859,339,595,851,1107,1363,1619,1875,4096,8192,12288,4097,8193,12289,4098,8194,12290,4099,8195,12291,4112,8208,12304,4128,8224,12320,4144,8240,12336,4113,8209,12305,4129,8225,12321,4145,8241,12337,4161,8257,12353,4177,8273,12369,4114,8210,12306,4130,8226,12322,4146,8242,12338,4162,8258,12354,4178,8274,12370,4115,8211,12307,4131,8227,12323,4147,8243,12339,4163,8259,12355,4179,8275,12371,4352,8448,12544,16640,20736,4608,8704,12800,16896,20992,4864,8960,13056,17152,21248,4353,8449,12545,16641,20737,4609,8705,12801,16897,20993,4865,8961,13057,17153,21249,4354,8450,12546,16642,20738,4610,8706,12802,16898,20994,4866,8962,13058,17154,21250,4355,8451,12547,16643,20739,4611,8707,12803,16899,20995,4867,8963,13059,17155,21251,4368,8464,12560,16656,20752,24848,28944,4624,8720,12816,16912,21008,25104,29200,4880,8976,13072,17168,21264,25360,29456,5136,9232,13328,17424,21520,25616,29712,5392,9488,13584,17680,21776,25872,29968,4384,8480,12576,16672,20768,24864,28960,4640,8736,12832,16928,21024,25120,29216,4896,8992,13088,17184,21280,25376,29472,5152,9248,13344,17440,21536,25632,29728,5408,9504,13600,17696,21792,25888,29984,4400,8496,12592,16688,20784,24880,28976,4656,8752,12848,16944,21040,25136,29232,4912,9008,13104,17200,21296,25392,29488,5168,9264,13360,17456,21552,25648,29744,5424,9520,13616,17712,21808,25904,30000,4369,8465,12561,16657,20753,24849,28945,33041,37137,4625,8721,12817,16913,21009,25105,29201,33297,37393,4881,8977,13073,17169,21265,25361,29457,33553,37649,5137,9233,13329,17425,21521,25617,29713,33809,37905,5393,9489,13585,17681,21777,25873,29969,34065,38161,5649,9745,13841,17937,22033,26129,30225,34321,38417,5905,10001,14097,18193,22289,26385,30481,34577,38673,4385,8481,12577,16673,20769,24865,28961,33057,37153,4641,8737,12833,16929,21025,25121,29217,33313,37409,4897,8993,13089,17185,21281,25377,29473,33569,37665,5153,9249,13345,17441,21537,25633,29729,33825,37921,5409,9505,13601,17697,21793,25889,29985,34081,38177,5665,9761,13857,17953,22049,26145,30241,34337,38433,5921,10017,14113,18209,22305,26401,30497,34593,38689,4401,8497,12593,16689,20785,24881,28977,33073,37169,4657,8753,12849,16945,21041,25137,29233,33329,37425,4913,9009,13105,17201,21297,25393,29489,33585,37681,5169,9265,13361,17457,21553,25649,29745,33841,37937,5425,9521,13617,17713,21809,25905,30001,34097,38193,5681,9777,13873,17969,22065,26161,30257,34353,38449,5937,10033,14129,18225,22321,26417,30513,34609,38705,4417,8513,12609,16705,20801,24897,28993,33089,37185,4673,8769,12865,16961,21057,25153,29249,33345,37441,4929,9025,13121,17217,21313,25409,29505,33601,37697,5185,9281,13377,17473,21569,25665,29761,33857,37953,5441,9537,13633,17729,21825,25921,30017,34113,38209,5697,9793,13889,17985,22081,26177,30273,34369,38465,5953,10049,14145,18241,22337,26433,30529,34625,38721,4433,8529,12625,16721,20817,24913,29009,33105,37201,4689,8785,12881,16977,21073,25169,29265,33361,37457,4945,9041,13137,17233,21329,25425,29521,33617,37713,5201,9297,13393,17489,21585,25681,29777,33873,37969,5457,9553,13649,17745,21841,25937,30033,34129,38225,5713,9809,13905,18001,22097,26193,30289,34385,38481,5969,10065,14161,18257,22353,26449,30545,34641,38737,4370,8466,12562,16658,20754,24850,28946,33042,37138,4626,8722,12818,16914,21010,25106,29202,33298,37394,4882,8978,13074,17170,21266,25362,29458,33554,37650,5138,9234,13330,17426,21522,25618,29714,33810,37906,5394,9490,13586,17682,21778,25874,29970,34066,38162,5650,9746,13842,17938,22034,26130,30226,34322,38418,5906,10002,14098,18194,22290,26386,30482,34578,38674,4386,8482,12578,16674,20770,24866,28962,33058,37154,4642,8738,12834,16930,21026,25122,29218,33314,37410,4898,8994,13090,17186,21282,25378,29474,33570,37666,5154,9250,13346,17442,21538,25634,29730,33826,37922,5410,9506,13602,17698,21794,25890,29986,34082,38178,5666,9762,13858,17954,22050,26146,30242,34338,38434,5922,10018,14114,18210,22306,26402,30498,34594,38690,4402,8498,12594,16690,20786,24882,28978,33074,37170,4658,8754,12850,16946,21042,25138,29234,33330,37426,4914,9010,13106,17202,21298,25394,29490,33586,37682,5170,9266,13362,17458,21554,25650,29746,33842,37938,5426,9522,13618,17714,21810,25906,30002,34098,38194,5682,9778,13874,17970,22066,26162,30258,34354,38450,5938,10034,14130,18226,22322,26418,30514,34610,38706,4418,8514,12610,16706,20802,24898,28994,33090,37186,4674,8770,12866,16962,21058,25154,29250,33346,37442,4930,9026,13122,17218,21314,25410,29506,33602,37698,5186,9282,13378,17474,21570,25666,29762,33858,37954,5442,9538,13634,17730,21826,25922,30018,34114,38210,5698,9794,13890,17986,22082,26178,30274,34370,38466,5954,10050,14146,18242,22338,26434,30530,34626,38722,4434,8530,12626,16722,20818,24914,29010,33106,37202,4690,8786,12882,16978,21074,25170,29266,33362,37458,4946,9042,13138,17234,21330,25426,29522,33618,37714,5202,9298,13394,17490,21586,25682,29778,33874,37970,5458,9554,13650,17746,21842,25938,30034,34130,38226,5714,9810,13906,18002,22098,26194,30290,34386,38482,5970,10066,14162,18258,22354,26450,30546,34642,38738,4371,8467,12563,16659,20755,24851,28947,33043,37139,4627,8723,12819,16915,21011,25107,29203,33299,37395,4883,8979,13075,17171,21267,25363,29459,33555,37651,5139,9235,13331,17427,21523,25619,29715,33811,37907,5395,9491,13587,17683,21779,25875,29971,34067,38163,5651,9747,13843,17939,22035,26131,30227,34323,38419,5907,10003,14099,18195,22291,26387,30483,34579,38675,4387,8483,12579,16675,20771,24867,28963,33059,37155,4643,8739,12835,16931,21027,25123,29219,33315,37411,4899,8995,13091,17187,21283,25379,29475,33571,37667,5155,9251,13347,17443,21539,25635,29731,33827,37923,5411,9507,13603,17699,21795,25891,29987,34083,38179,5667,9763,13859,17955,22051,26147,30243,34339,38435,5923,10019,14115,18211,22307,26403,30499,34595,38691,4403,8499,12595,16691,20787,24883,28979,33075,37171,4659,8755,12851,16947,21043,25139,29235,33331,37427,4915,9011,13107,17203,21299,25395,29491,33587,37683,5171,9267,13363,17459,21555,25651,29747,33843,37939,5427,9523,13619,17715,21811,25907,30003,34099,38195,5683,9779,13875,17971,22067,26163,30259,34355,38451,5939,10035,14131,18227,22323,26419,30515,34611,38707,4419,8515,12611,16707,20803,24899,28995,33091,37187,4675,8771,12867,16963,21059,25155,29251,33347,37443,4931,9027,13123,17219,21315,25411,29507,33603,37699,5187,9283,13379,17475,21571,25667,29763,33859,37955,5443,9539,13635,17731,21827,25923,30019,34115,38211,5699,9795,13891,17987,22083,26179,30275,34371,38467,5955,10051,14147,18243,22339,26435,30531,34627,38723,4435,8531,12627,16723,20819,24915,29011,33107,37203,4691,8787,12883,16979,21075,25171,29267,33363,37459,4947,9043,13139,17235,21331,25427,29523,33619,37715,5203,9299,13395,17491,21587,25683,29779,33875,37971,5459,9555,13651,17747,21843,25939,30035,34131,38227,5715,9811,13907,18003,22099,26195,30291,34387,38483,5971,10067,14163,18259,22355,26451,30547,34643,38739,65536,131072,196608,65537,131073,196609,65538,131074,196610,65539,131075,196611,65552,131088,196624,65568,131104,196640,65584,131120,196656,65553,131089,196625,65569,131105,196641,65585,131121,196657,65601,131137,196673,65617,131153,196689,65554,131090,196626,65570,131106,196642,65586,131122,196658,65602,131138,196674,65618,131154,196690,65555,131091,196627,65571,131107,196643,65587,131123,196659,65603,131139,196675,65619,131155,196691,65792,131328,196864,66048,131584,197120,66304,131840,197376,65793,131329,196865,66049,131585,197121,66305,131841,197377,65794,131330,196866,66050,131586,197122,66306,131842,197378,65795,131331,196867,66051,131587,197123,66307,131843,197379,65808,131344,196880,66064,131600,197136,66320,131856,197392,66576,132112,197648,66832,132368,197904,65824,131360,196896,66080,131616,197152,66336,131872,197408,66592,132128,197664,66848,132384,197920,65840,131376,196912,66096,131632,197168,66352,131888,197424,66608,132144,197680,66864,132400,197936,65809,131345,196881,66065,131601,197137,66321,131857,197393,66577,132113,197649,66833,132369,197905,67089,132625,198161,67345,132881,198417,65825,131361,196897,66081,131617,197153,66337,131873,197409,66593,132129,197665,66849,132385,197921,67105,132641,198177,67361,132897,198433,65841,131377,196913,66097,131633,197169,66353,131889,197425,66609,132145,197681,66865,132401,197937,67121,132657,198193,67377,132913,198449,65857,131393,196929,66113,131649,197185,66369,131905,197441,66625,132161,197697,66881,132417,197953,67137,132673,198209,67393,132929,198465,65873,131409,196945,66129,131665,197201,66385,131921,197457,66641,132177,197713,66897,132433,197969,67153,132689,198225,67409,132945,198481,65810,131346,196882,66066,131602,197138,66322,131858,197394,66578,132114,197650,66834,132370,197906,67090,132626,198162,67346,132882,198418,65826,131362,196898,66082,131618,197154,66338,131874,197410,66594,132130,197666,66850,132386,197922,67106,132642,198178,67362,132898,198434,65842,131378,196914,66098,131634,197170,66354,131890,197426,66610,132146,197682,66866,132402,197938,67122,132658,198194,67378,132914,198450,65858,131394,196930,66114,131650,197186,66370,131906,197442,66626,132162,197698,66882,132418,197954,67138,132674,198210,67394,132930,198466,65874,131410,196946,66130,131666,197202,66386,131922,197458,66642,132178,197714,66898,132434,197970,67154,132690,198226,67410,132946,198482,65811,131347,196883,66067,131603,197139,66323,131859,197395,66579,132115,197651,66835,132371,197907,67091,132627,198163,67347,132883,198419,65827,131363,196899,66083,131619,197155,66339,131875,197411,66595,132131,197667,66851,132387,197923,67107,132643,198179,67363,132899,198435,65843,131379,196915,66099,131635,197171,66355,131891,197427,66611,132147,197683,66867,132403,197939,67123,132659,198195,67379,132915,198451,65859,131395,196931,66115,131651,197187,66371,131907,197443,66627,132163,197699,66883,132419,197955,67139,132675,198211,67395,132931,198467,65875,131411,196947,66131,131667,197203,66387,131923,197459,66643,132179,197715,66899,132435,197971,67155,132691,198227,67411,132947,198483,69632,135168,200704,266240,331776,73728,139264,204800,270336,335872,77824,143360,208896,274432,339968,69633,135169,200705,266241,331777,73729,139265,204801,270337,335873,77825,143361,208897,274433,339969,69634,135170,200706,266242,331778,73730,139266,204802,270338,335874,77826,143362,208898,274434,339970,69635,135171,200707,266243,331779,73731,139267,204803,270339,335875,77827,143363,208899,274435,339971,69648,135184,200720,266256,331792,73744,139280,204816,270352,335888,77840,143376,208912,274448,339984,69664,135200,200736,266272,331808,73760,139296,204832,270368,335904,77856,143392,208928,274464,340000,69680,135216,200752,266288,331824,73776,139312,204848,270384,335920,77872,143408,208944,274480,340016,69649,135185,200721,266257,331793,73745,139281,204817,270353,335889,77841,143377,208913,274449,339985,69665,135201,200737,266273,331809,73761,139297,204833,270369,335905,77857,143393,208929,274465,340001,69681,135217,200753,266289,331825,73777,139313,204849,270385,335921,77873,143409,208945,274481,340017,69697,135233,200769,266305,331841,73793,139329,204865,270401,335937,77889,143425,208961,274497,340033,69713,135249,200785,266321,331857,73809,139345,204881,270417,335953,77905,143441,208977,274513,340049,69650,135186,200722,266258,331794,73746,139282,204818,270354,335890,77842,143378,208914,274450,339986,69666,135202,200738,266274,331810,73762,139298,204834,270370,335906,77858,143394,208930,274466,340002,69682,135218,200754,266290,331826,73778,139314,204850,270386,335922,77874,143410,208946,274482,340018,69698,135234,200770,266306,331842,73794,139330,204866,270402,335938,77890,143426,208962,274498,340034,69714,135250,200786,266322,331858,73810,139346,204882,270418,335954,77906,143442,208978,274514,340050,69651,135187,200723,266259,331795,73747,139283,204819,270355,335891,77843,143379,208915,274451,339987,69667,135203,200739,266275,331811,73763,139299,204835,270371,335907,77859,143395,208931,274467,340003,69683,135219,200755,266291,331827,73779,139315,204851,270387,335923,77875,143411,208947,274483,340019,69699,135235,200771,266307,331843,73795,139331,204867,270403,335939,77891,143427,208963,274499,340035,69715,135251,200787,266323,331859,73811,139347,204883,270419,335955,77907,143443,208979,274515,340051,69888,135424,200960,266496,332032,397568,463104,73984,139520,205056,270592,336128,401664,467200,78080,143616,209152,274688,340224,405760,471296,82176,147712,213248,278784,344320,409856,475392,86272,151808,217344,282880,348416,413952,479488,70144,135680,201216,266752,332288,397824,463360,74240,139776,205312,270848,336384,401920,467456,78336,143872,209408,274944,340480,406016,471552,82432,147968,213504,279040,344576,410112,475648,86528,152064,217600,283136,348672,414208,479744,70400,135936,201472,267008,332544,398080,463616,74496,140032,205568,271104,336640,402176,467712,78592,144128,209664,275200,340736,406272,471808,82688,148224,213760,279296,344832,410368,475904,86784,152320,217856,283392,348928,414464,480000,69889,135425,200961,266497,332033,397569,463105,73985,139521,205057,270593,336129,401665,467201,78081,143617,209153,274689,340225,405761,471297,82177,147713,213249,278785,344321,409857,475393,86273,151809,217345,282881,348417,413953,479489,70145,135681,201217,266753,332289,397825,463361,74241,139777,205313,270849,336385,401921,467457,78337,143873,209409,274945,340481,406017,471553,82433,147969,213505,279041,344577,410113,475649,86529,152065,217601,283137,348673,414209,479745,70401,135937,201473,267009,332545,398081,463617,74497,140033,205569,271105,336641,402177,467713,78593,144129,209665,275201,340737,406273,471809,82689,148225,213761,279297,344833,410369,475905,86785,152321,217857,283393,348929,414465,480001,69890,135426,200962,266498,332034,397570,463106,73986,139522,205058,270594,336130,401666,467202,78082,143618,209154,274690,340226,405762,471298,82178,147714,213250,278786,344322,409858,475394,86274,151810,217346,282882,348418,413954,479490,70146,135682,201218,266754,332290,397826,463362,74242,139778,205314,270850,336386,401922,467458,78338,143874,209410,274946,340482,406018,471554,82434,147970,213506,279042,344578,410114,475650,86530,152066,217602,283138,348674,414210,479746,70402,135938,201474,267010,332546,398082,463618,74498,140034,205570,271106,336642,402178,467714,78594,144130,209666,275202,340738,406274,471810,82690,148226,213762,279298,344834,410370,475906,86786,152322,217858,283394,348930,414466,480002,69891,135427,200963,266499,332035,397571,463107,73987,139523,205059,270595,336131,401667,467203,78083,143619,209155,274691,340227,405763,471299,82179,147715,213251,278787,344323,409859,475395,86275,151811,217347,282883,348419,413955,479491,70147,135683,201219,266755,332291,397827,463363,74243,139779,205315,270851,336387,401923,467459,78339,143875,209411,274947,340483,406019,471555,82435,147971,213507,279043,344579,410115,475651,86531,152067,217603,283139,348675,414211,479747,70403,135939,201475,267011,332547,398083,463619,74499,140035,205571,271107,336643,402179,467715,78595,144131,209667,275203,340739,406275,471811,82691,148227,213763,279299,344835,410371,475907,86787,152323,217859,283395,348931,414467,480003,69904,135440,200976,266512,332048,397584,463120,528656,594192,74000,139536,205072,270608,336144,401680,467216,532752,598288,78096,143632,209168,274704,340240,405776,471312,536848,602384,82192,147728,213264,278800,344336,409872,475408,540944,606480,86288,151824,217360,282896,348432,413968,479504,545040,610576,90384,155920,221456,286992,352528,418064,483600,549136,614672,94480,160016,225552,291088,356624,422160,487696,553232,618768,70160,135696,201232,266768,332304,397840,463376,528912,594448,74256,139792,205328,270864,336400,401936,467472,533008,598544,78352,143888,209424,274960,340496,406032,471568,537104,602640,82448,147984,213520,279056,344592,410128,475664,541200,606736,86544,152080,217616,283152,348688,414224,479760,545296,610832,90640,156176,221712,287248,352784,418320,483856,549392,614928,94736,160272,225808,291344,356880,422416,487952,553488,619024,70416,135952,201488,267024,332560,398096,463632,529168,594704,74512,140048,205584,271120,336656,402192,467728,533264,598800,78608,144144,209680,275216,340752,406288,471824,537360,602896,82704,148240,213776,279312,344848,410384,475920,541456,606992,86800,152336,217872,283408,348944,414480,480016,545552,611088,90896,156432,221968,287504,353040,418576,484112,549648,615184,94992,160528,226064,291600,357136,422672,488208,553744,619280,70672,136208,201744,267280,332816,398352,463888,529424,594960,74768,140304,205840,271376,336912,402448,467984,533520,599056,78864,144400,209936,275472,341008,406544,472080,537616,603152,82960,148496,214032,279568,345104,410640,476176,541712,607248,87056,152592,218128,283664,349200,414736,480272,545808,611344,91152,156688,222224,287760,353296,418832,484368,549904,615440,95248,160784,226320,291856,357392,422928,488464,554000,619536,70928,136464,202000,267536,333072,398608,464144,529680,595216,75024,140560,206096,271632,337168,402704,468240,533776,599312,79120,144656,210192,275728,341264,406800,472336,537872,603408,83216,148752,214288,279824,345360,410896,476432,541968,607504,87312,152848,218384,283920,349456,414992,480528,546064,611600,91408,156944,222480,288016,353552,419088,484624,550160,615696,95504,161040,226576,292112,357648,423184,488720,554256,619792,69920,135456,200992,266528,332064,397600,463136,528672,594208,74016,139552,205088,270624,336160,401696,467232,532768,598304,78112,143648,209184,274720,340256,405792,471328,536864,602400,82208,147744,213280,278816,344352,409888,475424,540960,606496,86304,151840,217376,282912,348448,413984,479520,545056,610592,90400,155936,221472,287008,352544,418080,483616,549152,614688,94496,160032,225568,291104,356640,422176,487712,553248,618784,70176,135712,201248,266784,332320,397856,463392,528928,594464,74272,139808,205344,270880,336416,401952,467488,533024,598560,78368,143904,209440,274976,340512,406048,471584,537120,602656,82464,148000,213536,279072,344608,410144,475680,541216,606752,86560,152096,217632,283168,348704,414240,479776,545312,610848,90656,156192,221728,287264,352800,418336,483872,549408,614944,94752,160288,225824,291360,356896,422432,487968,553504,619040,70432,135968,201504,267040,332576,398112,463648,529184,594720,74528,140064,205600,271136,336672,402208,467744,533280,598816,78624,144160,209696,275232,340768,406304,471840,537376,602912,82720,148256,213792,279328,344864,410400,475936,541472,607008,86816,152352,217888,283424,348960,414496,480032,545568,611104,90912,156448,221984,287520,353056,418592,484128,549664,615200,95008,160544,226080,291616,357152,422688,488224,553760,619296,70688,136224,201760,267296,332832,398368,463904,529440,594976,74784,140320,205856,271392,336928,402464,468000,533536,599072,78880,144416,209952,275488,341024,406560,472096,537632,603168,82976,148512,214048,279584,345120,410656,476192,541728,607264,87072,152608,218144,283680,349216,414752,480288,545824,611360,91168,156704,222240,287776,353312,418848,484384,549920,615456,95264,160800,226336,291872,357408,422944,488480,554016,619552,70944,136480,202016,267552,333088,398624,464160,529696,595232,75040,140576,206112,271648,337184,402720,468256,533792,599328,79136,144672,210208,275744,341280,406816,472352,537888,603424,83232,148768,214304,279840,345376,410912,476448,541984,607520,87328,152864,218400,283936,349472,415008,480544,546080,611616,91424,156960,222496,288032,353568,419104,484640,550176,615712,95520,161056,226592,292128,357664,423200,488736,554272,619808,69936,135472,201008,266544,332080,397616,463152,528688,594224,74032,139568,205104,270640,336176,401712,467248,532784,598320,78128,143664,209200,274736,340272,405808,471344,536880,602416,82224,147760,213296,278832,344368,409904,475440,540976,606512,86320,151856,217392,282928,348464,414000,479536,545072,610608,90416,155952,221488,287024,352560,418096,483632,549168,614704,94512,160048,225584,291120,356656,422192,487728,553264,618800,70192,135728,201264,266800,332336,397872,463408,528944,594480,74288,139824,205360,270896,336432,401968,467504,533040,598576,78384,143920,209456,274992,340528,406064,471600,537136,602672,82480,148016,213552,279088,344624,410160,475696,541232,606768,86576,152112,217648,283184,348720,414256,479792,545328,610864,90672,156208,221744,287280,352816,418352,483888,549424,614960,94768,160304,225840,291376,356912,422448,487984,553520,619056,70448,135984,201520,267056,332592,398128,463664,529200,594736,74544,140080,205616,271152,336688,402224,467760,533296,598832,78640,144176,209712,275248,340784,406320,471856,537392,602928,82736,148272,213808,279344,344880,410416,475952,541488,607024,86832,152368,217904,283440,348976,414512,480048,545584,611120,90928,156464,222000,287536,353072,418608,484144,549680,615216,95024,160560,226096,291632,357168,422704,488240,553776,619312,70704,136240,201776,267312,332848,398384,463920,529456,594992,74800,140336,205872,271408,336944,402480,468016,533552,599088,78896,144432,209968,275504,341040,406576,472112,537648,603184,82992,148528,214064,279600,345136,410672,476208,541744,607280,87088,152624,218160,283696,349232,414768,480304,545840,611376,91184,156720,222256,287792,353328,418864,484400,549936,615472,95280,160816,226352,291888,357424,422960,488496,554032,619568,70960,136496,202032,267568,333104,398640,464176,529712,595248,75056,140592,206128,271664,337200,402736,468272,533808,599344,79152,144688,210224,275760,341296,406832,472368,537904,603440,83248,148784,214320,279856,345392,410928,476464,542000,607536,87344,152880,218416,283952,349488,415024,480560,546096,611632,91440,156976,222512,288048,353584,419120,484656,550192,615728,95536,161072,226608,292144,357680,423216,488752,554288,619824,1048576,2097152,3145728,1048577,2097153,3145729,1048578,2097154,3145730,1048579,2097155,3145731,1048592,2097168,3145744,1048608,2097184,3145760,1048624,2097200,3145776,1048593,2097169,3145745,1048609,2097185,3145761,1048625,2097201,3145777,1048641,2097217,3145793,1048657,2097233,3145809,1048594,2097170,3145746,1048610,2097186,3145762,1048626,2097202,3145778,1048642,2097218,3145794,1048658,2097234,3145810,1048595,2097171,3145747,1048611,2097187,3145763,1048627,2097203,3145779,1048643,2097219,3145795,1048659,2097235,3145811,1048832,2097408,3145984,1049088,2097664,3146240,1049344,2097920,3146496,1048833,2097409,3145985,1049089,2097665,3146241,1049345,2097921,3146497,1048834,2097410,3145986,1049090,2097666,3146242,1049346,2097922,3146498,1048835,2097411,3145987,1049091,2097667,3146243,1049347,2097923,3146499,1048848,2097424,3146000,1049104,2097680,3146256,1049360,2097936,3146512,1049616,2098192,3146768,1049872,2098448,3147024,1048864,2097440,3146016,1049120,2097696,3146272,1049376,2097952,3146528,1049632,2098208,3146784,1049888,2098464,3147040,1048880,2097456,3146032,1049136,2097712,3146288,1049392,2097968,3146544,1049648,2098224,3146800,1049904,2098480,3147056,1048849,2097425,3146001,1049105,2097681,3146257,1049361,2097937,3146513,1049617,2098193,3146769,1049873,2098449,3147025,1050129,2098705,3147281,1050385,2098961,3147537,1048865,2097441,3146017,1049121,2097697,3146273,1049377,2097953,3146529,1049633,2098209,3146785,1049889,2098465,3147041,1050145,2098721,3147297,1050401,2098977,3147553,1048881,2097457,3146033,1049137,2097713,3146289,1049393,2097969,3146545,1049649,2098225,3146801,1049905,2098481,3147057,1050161,2098737,3147313,1050417,2098993,3147569,1048897,2097473,3146049,1049153,2097729,3146305,1049409,2097985,3146561,1049665,2098241,3146817,1049921,2098497,3147073,1050177,2098753,3147329,1050433,2099009,3147585,1048913,2097489,3146065,1049169,2097745,3146321,1049425,2098001,3146577,1049681,2098257,3146833,1049937,2098513,3147089,1050193,2098769,3147345,1050449,2099025,3147601,1048850,2097426,3146002,1049106,2097682,3146258,1049362,2097938,3146514,1049618,2098194,3146770,1049874,2098450,3147026,1050130,2098706,3147282,1050386,2098962,3147538,1048866,2097442,3146018,1049122,2097698,3146274,1049378,2097954,3146530,1049634,2098210,3146786,1049890,2098466,3147042,1050146,2098722,3147298,1050402,2098978,3147554,1048882,2097458,3146034,1049138,2097714,3146290,1049394,2097970,3146546,1049650,2098226,3146802,1049906,2098482,3147058,1050162,2098738,3147314,1050418,2098994,3147570,1048898,2097474,3146050,1049154,2097730,3146306,1049410,2097986,3146562,1049666,2098242,3146818,1049922,2098498,3147074,1050178,2098754,3147330,1050434,2099010,3147586,1048914,2097490,3146066,1049170,2097746,3146322,1049426,2098002,3146578,1049682,2098258,3146834,1049938,2098514,3147090,1050194,2098770,3147346,1050450,2099026,3147602,1048851,2097427,3146003,1049107,2097683,3146259,1049363,2097939,3146515,1049619,2098195,3146771,1049875,2098451,3147027,1050131,2098707,3147283,1050387,2098963,3147539,1048867,2097443,3146019,1049123,2097699,3146275,1049379,2097955,3146531,1049635,2098211,3146787,1049891,2098467,3147043,1050147,2098723,3147299,1050403,2098979,3147555,1048883,2097459,3146035,1049139,2097715,3146291,1049395,2097971,3146547,1049651,2098227,3146803,1049907,2098483,3147059,1050163,2098739,3147315,1050419,2098995,3147571,1048899,2097475,3146051,1049155,2097731,3146307,1049411,2097987,3146563,1049667,2098243,3146819,1049923,2098499,3147075,1050179,2098755,3147331,1050435,2099011,3147587,1048915,2097491,3146067,1049171,2097747,3146323,1049427,2098003,3146579,1049683,2098259,3146835,1049939,2098515,3147091,1050195,2098771,3147347,1050451,2099027,3147603,1052672,2101248,3149824,1056768,2105344,3153920,1060864,2109440,3158016,1052673,2101249,3149825,1056769,2105345,3153921,1060865,2109441,3158017,1052674,2101250,3149826,1056770,2105346,3153922,1060866,2109442,3158018,1052675,2101251,3149827,1056771,2105347,3153923,1060867,2109443,3158019,1052688,2101264,3149840,1056784,2105360,3153936,1060880,2109456,3158032,1052704,2101280,3149856,1056800,2105376,3153952,1060896,2109472,3158048,1052720,2101296,3149872,1056816,2105392,3153968,1060912,2109488,3158064,1052689,2101265,3149841,1056785,2105361,3153937,1060881,2109457,3158033,1052705,2101281,3149857,1056801,2105377,3153953,1060897,2109473,3158049,1052721,2101297,3149873,1056817,2105393,3153969,1060913,2109489,3158065,1052737,2101313,3149889,1056833,2105409,3153985,1060929,2109505,3158081,1052753,2101329,3149905,1056849,2105425,3154001,1060945,2109521,3158097,1052690,2101266,3149842,1056786,2105362,3153938,1060882,2109458,3158034,1052706,2101282,3149858,1056802,2105378,3153954,1060898,2109474,3158050,1052722,2101298,3149874,1056818,2105394,3153970,1060914,2109490,3158066,1052738,2101314,3149890,1056834,2105410,3153986,1060930,2109506,3158082,1052754,2101330,3149906,1056850,2105426,3154002,1060946,2109522,3158098,1052691,2101267,3149843,1056787,2105363,3153939,1060883,2109459,3158035,1052707,2101283,3149859,1056803,2105379,3153955,1060899,2109475,3158051,1052723,2101299,3149875,1056819,2105395,3153971,1060915,2109491,3158067,1052739,2101315,3149891,1056835,2105411,3153987,1060931,2109507,3158083,1052755,2101331,3149907,1056851,2105427,3154003,1060947,2109523,3158099,1052928,2101504,3150080,1057024,2105600,3154176,1061120,2109696,3158272,1065216,2113792,3162368,1069312,2117888,3166464,1053184,2101760,3150336,1057280,2105856,3154432,1061376,2109952,3158528,1065472,2114048,3162624,1069568,2118144,3166720,1053440,2102016,3150592,1057536,2106112,3154688,1061632,2110208,3158784,1065728,2114304,3162880,1069824,2118400,3166976,1052929,2101505,3150081,1057025,2105601,3154177,1061121,2109697,3158273,1065217,2113793,3162369,1069313,2117889,3166465,1053185,2101761,3150337,1057281,2105857,3154433,1061377,2109953,3158529,1065473,2114049,3162625,1069569,2118145,3166721,1053441,2102017,3150593,1057537,2106113,3154689,1061633,2110209,3158785,1065729,2114305,3162881,1069825,2118401,3166977,1052930,2101506,3150082,1057026,2105602,3154178,1061122,2109698,3158274,1065218,2113794,3162370,1069314,2117890,3166466,1053186,2101762,3150338,1057282,2105858,3154434,1061378,2109954,3158530,1065474,2114050,3162626,1069570,2118146,3166722,1053442,2102018,3150594,1057538,2106114,3154690,1061634,2110210,3158786,1065730,2114306,3162882,1069826,2118402,3166978,1052931,2101507,3150083,1057027,2105603,3154179,1061123,2109699,3158275,1065219,2113795,3162371,1069315,2117891,3166467,1053187,2101763,3150339,1057283,2105859,3154435,1061379,2109955,3158531,1065475,2114051,3162627,1069571,2118147,3166723,1053443,2102019,3150595,1057539,2106115,3154691,1061635,2110211,3158787,1065731,2114307,3162883,1069827,2118403,3166979,1052944,2101520,3150096,1057040,2105616,3154192,1061136,2109712,3158288,1065232,2113808,3162384,1069328,2117904,3166480,1073424,2122000,3170576,1077520,2126096,3174672,1053200,2101776,3150352,1057296,2105872,3154448,1061392,2109968,3158544,1065488,2114064,3162640,1069584,2118160,3166736,1073680,2122256,3170832,1077776,2126352,3174928,1053456,2102032,3150608,1057552,2106128,3154704,1061648,2110224,3158800,1065744,2114320,3162896,1069840,2118416,3166992,1073936,2122512,3171088,1078032,2126608,3175184,1053712,2102288,3150864,1057808,2106384,3154960,1061904,2110480,3159056,1066000,2114576,3163152,1070096,2118672,3167248,1074192,2122768,3171344,1078288,2126864,3175440,1053968,2102544,3151120,1058064,2106640,3155216,1062160,2110736,3159312,1066256,2114832,3163408,1070352,2118928,3167504,1074448,2123024,3171600,1078544,2127120,3175696,1052960,2101536,3150112,1057056,2105632,3154208,1061152,2109728,3158304,1065248,2113824,3162400,1069344,2117920,3166496,1073440,2122016,3170592,1077536,2126112,3174688,1053216,2101792,3150368,1057312,2105888,3154464,1061408,2109984,3158560,1065504,2114080,3162656,1069600,2118176,3166752,1073696,2122272,3170848,1077792,2126368,3174944,1053472,2102048,3150624,1057568,2106144,3154720,1061664,2110240,3158816,1065760,2114336,3162912,1069856,2118432,3167008,1073952,2122528,3171104,1078048,2126624,3175200,1053728,2102304,3150880,1057824,2106400,3154976,1061920,2110496,3159072,1066016,2114592,3163168,1070112,2118688,3167264,1074208,2122784,3171360,1078304,2126880,3175456,1053984,2102560,3151136,1058080,2106656,3155232,1062176,2110752,3159328,1066272,2114848,3163424,1070368,2118944,3167520,1074464,2123040,3171616,1078560,2127136,3175712,1052976,2101552,3150128,1057072,2105648,3154224,1061168,2109744,3158320,1065264,2113840,3162416,1069360,2117936,3166512,1073456,2122032,3170608,1077552,2126128,3174704,1053232,2101808,3150384,1057328,2105904,3154480,1061424,2110000,3158576,1065520,2114096,3162672,1069616,2118192,3166768,1073712,2122288,3170864,1077808,2126384,3174960,1053488,2102064,3150640,1057584,2106160,3154736,1061680,2110256,3158832,1065776,2114352,3162928,1069872,2118448,3167024,1073968,2122544,3171120,1078064,2126640,3175216,1053744,2102320,3150896,1057840,2106416,3154992,1061936,2110512,3159088,1066032,2114608,3163184,1070128,2118704,3167280,1074224,2122800,3171376,1078320,2126896,3175472,1054000,2102576,3151152,1058096,2106672,3155248,1062192,2110768,3159344,1066288,2114864,3163440,1070384,2118960,3167536,1074480,2123056,3171632,1078576,2127152,3175728,1114112,2162688,3211264,4259840,5308416,1179648,2228224,3276800,4325376,5373952,1245184,2293760,3342336,4390912,5439488,1114113,2162689,3211265,4259841,5308417,1179649,2228225,3276801,4325377,5373953,1245185,2293761,3342337,4390913,5439489,1114114,2162690,3211266,4259842,5308418,1179650,2228226,3276802,4325378,5373954,1245186,2293762,3342338,4390914,5439490,1114115,2162691,3211267,4259843,5308419,1179651,2228227,3276803,4325379,5373955,1245187,2293763,3342339,4390915,5439491,1114128,2162704,3211280,4259856,5308432,1179664,2228240,3276816,4325392,5373968,1245200,2293776,3342352,4390928,5439504,1114144,2162720,3211296,4259872,5308448,1179680,2228256,3276832,4325408,5373984,1245216,2293792,3342368,4390944,5439520,1114160,2162736,3211312,4259888,5308464,1179696,2228272,3276848,4325424,5374000,1245232,2293808,3342384,4390960,5439536,1114129,2162705,3211281,4259857,5308433,1179665,2228241,3276817,4325393,5373969,1245201,2293777,3342353,4390929,5439505,1114145,2162721,3211297,4259873,5308449,1179681,2228257,3276833,4325409,5373985,1245217,2293793,3342369,4390945,5439521,1114161,2162737,3211313,4259889,5308465,1179697,2228273,3276849,4325425,5374001,1245233,2293809,3342385,4390961,5439537,1114177,2162753,3211329,4259905,5308481,1179713,2228289,3276865,4325441,5374017,1245249,2293825,3342401,4390977,5439553,1114193,2162769,3211345,4259921,5308497,1179729,2228305,3276881,4325457,5374033,1245265,2293841,3342417,4390993,5439569,1114130,2162706,3211282,4259858,5308434,1179666,2228242,3276818,4325394,5373970,1245202,2293778,3342354,4390930,5439506,1114146,2162722,3211298,4259874,5308450,1179682,2228258,3276834,4325410,5373986,1245218,2293794,3342370,4390946,5439522,1114162,2162738,3211314,4259890,5308466,1179698,2228274,3276850,4325426,5374002,1245234,2293810,3342386,4390962,5439538,1114178,2162754,3211330,4259906,5308482,1179714,2228290,3276866,4325442,5374018,1245250,2293826,3342402,4390978,5439554,1114194,2162770,3211346,4259922,5308498,1179730,2228306,3276882,4325458,5374034,1245266,2293842,3342418,4390994,5439570,1114131,2162707,3211283,4259859,5308435,1179667,2228243,3276819,4325395,5373971,1245203,2293779,3342355,4390931,5439507,1114147,2162723,3211299,4259875,5308451,1179683,2228259,3276835,4325411,5373987,1245219,2293795,3342371,4390947,5439523,1114163,2162739,3211315,4259891,5308467,1179699,2228275,3276851,4325427,5374003,1245235,2293811,3342387,4390963,5439539,1114179,2162755,3211331,4259907,5308483,1179715,2228291,3276867,4325443,5374019,1245251,2293827,3342403,4390979,5439555,1114195,2162771,3211347,4259923,5308499,1179731,2228307,3276883,4325459,5374035,1245267,2293843,3342419,4390995,5439571,1114368,2162944,3211520,4260096,5308672,1179904,2228480,3277056,4325632,5374208,1245440,2294016,3342592,4391168,5439744,1114624,2163200,3211776,4260352,5308928,1180160,2228736,3277312,4325888,5374464,1245696,2294272,3342848,4391424,5440000,1114880,2163456,3212032,4260608,5309184,1180416,2228992,3277568,4326144,5374720,1245952,2294528,3343104,4391680,5440256,1114369,2162945,3211521,4260097,5308673,1179905,2228481,3277057,4325633,5374209,1245441,2294017,3342593,4391169,5439745,1114625,2163201,3211777,4260353,5308929,1180161,2228737,3277313,4325889,5374465,1245697,2294273,3342849,4391425,5440001,1114881,2163457,3212033,4260609,5309185,1180417,2228993,3277569,4326145,5374721,1245953,2294529,3343105,4391681,5440257,1114370,2162946,3211522,4260098,5308674,1179906,2228482,3277058,4325634,5374210,1245442,2294018,3342594,4391170,5439746,1114626,2163202,3211778,4260354,5308930,1180162,2228738,3277314,4325890,5374466,1245698,2294274,3342850,4391426,5440002,1114882,2163458,3212034,4260610,5309186,1180418,2228994,3277570,4326146,5374722,1245954,2294530,3343106,4391682,5440258,1114371,2162947,3211523,4260099,5308675,1179907,2228483,3277059,4325635,5374211,1245443,2294019,3342595,4391171,5439747,1114627,2163203,3211779,4260355,5308931,1180163,2228739,3277315,4325891,5374467,1245699,2294275,3342851,4391427,5440003,1114883,2163459,3212035,4260611,5309187,1180419,2228995,3277571,4326147,5374723,1245955,2294531,3343107,4391683,5440259,1114384,2162960,3211536,4260112,5308688,1179920,2228496,3277072,4325648,5374224,1245456,2294032,3342608,4391184,5439760,1114640,2163216,3211792,4260368,5308944,1180176,2228752,3277328,4325904,5374480,1245712,2294288,3342864,4391440,5440016,1114896,2163472,3212048,4260624,5309200,1180432,2229008,3277584,4326160,5374736,1245968,2294544,3343120,4391696,5440272,1115152,2163728,3212304,4260880,5309456,1180688,2229264,3277840,4326416,5374992,1246224,2294800,3343376,4391952,5440528,1115408,2163984,3212560,4261136,5309712,1180944,2229520,3278096,4326672,5375248,1246480,2295056,3343632,4392208,5440784,1114400,2162976,3211552,4260128,5308704,1179936,2228512,3277088,4325664,5374240,1245472,2294048,3342624,4391200,5439776,1114656,2163232,3211808,4260384,5308960,1180192,2228768,3277344,4325920,5374496,1245728,2294304,3342880,4391456,5440032,1114912,2163488,3212064,4260640,5309216,1180448,2229024,3277600,4326176,5374752,1245984,2294560,3343136,4391712,5440288,1115168,2163744,3212320,4260896,5309472,1180704,2229280,3277856,4326432,5375008,1246240,2294816,3343392,4391968,5440544,1115424,2164000,3212576,4261152,5309728,1180960,2229536,3278112,4326688,5375264,1246496,2295072,3343648,4392224,5440800,1114416,2162992,3211568,4260144,5308720,1179952,2228528,3277104,4325680,5374256,1245488,2294064,3342640,4391216,5439792,1114672,2163248,3211824,4260400,5308976,1180208,2228784,3277360,4325936,5374512,1245744,2294320,3342896,4391472,5440048,1114928,2163504,3212080,4260656,5309232,1180464,2229040,3277616,4326192,5374768,1246000,2294576,3343152,4391728,5440304,1115184,2163760,3212336,4260912,5309488,1180720,2229296,3277872,4326448,5375024,1246256,2294832,3343408,4391984,5440560,1115440,2164016,3212592,4261168,5309744,1180976,2229552,3278128,4326704,5375280,1246512,2295088,3343664,4392240,5440816,1118208,2166784,3215360,4263936,5312512,6361088,7409664,1183744,2232320,3280896,4329472,5378048,6426624,7475200,1249280,2297856,3346432,4395008,5443584,6492160,7540736,1314816,2363392,3411968,4460544,5509120,6557696,7606272,1380352,2428928,3477504,4526080,5574656,6623232,7671808,1122304,2170880,3219456,4268032,5316608,6365184,7413760,1187840,2236416,3284992,4333568,5382144,6430720,7479296,1253376,2301952,3350528,4399104,5447680,6496256,7544832,1318912,2367488,3416064,4464640,5513216,6561792,7610368,1384448,2433024,3481600,4530176,5578752,6627328,7675904,1126400,2174976,3223552,4272128,5320704,6369280,7417856,1191936,2240512,3289088,4337664,5386240,6434816,7483392,1257472,2306048,3354624,4403200,5451776,6500352,7548928,1323008,2371584,3420160,4468736,5517312,6565888,7614464,1388544,2437120,3485696,4534272,5582848,6631424,7680000,1118209,2166785,3215361,4263937,5312513,6361089,7409665,1183745,2232321,3280897,4329473,5378049,6426625,7475201,1249281,2297857,3346433,4395009,5443585,6492161,7540737,1314817,2363393,3411969,4460545,5509121,6557697,7606273,1380353,2428929,3477505,4526081,5574657,6623233,7671809,1122305,2170881,3219457,4268033,5316609,6365185,7413761,1187841,2236417,3284993,4333569,5382145,6430721,7479297,1253377,2301953,3350529,4399105,5447681,6496257,7544833,1318913,2367489,3416065,4464641,5513217,6561793,7610369,1384449,2433025,3481601,4530177,5578753,6627329,7675905,1126401,2174977,3223553,4272129,5320705,6369281,7417857,1191937,2240513,3289089,4337665,5386241,6434817,7483393,1257473,2306049,3354625,4403201,5451777,6500353,7548929,1323009,2371585,3420161,4468737,5517313,6565889,7614465,1388545,2437121,3485697,4534273,5582849,6631425,7680001,1118210,2166786,3215362,4263938,5312514,6361090,7409666,1183746,2232322,3280898,4329474,5378050,6426626,7475202,1249282,2297858,3346434,4395010,5443586,6492162,7540738,1314818,2363394,3411970,4460546,5509122,6557698,7606274,1380354,2428930,3477506,4526082,5574658,6623234,7671810,1122306,2170882,3219458,4268034,5316610,6365186,7413762,1187842,2236418,3284994,4333570,5382146,6430722,7479298,1253378,2301954,3350530,4399106,5447682,6496258,7544834,1318914,2367490,3416066,4464642,5513218,6561794,7610370,1384450,2433026,3481602,4530178,5578754,6627330,7675906,1126402,2174978,3223554,4272130,5320706,6369282,7417858,1191938,2240514,3289090,4337666,5386242,6434818,7483394,1257474,2306050,3354626,4403202,5451778,6500354,7548930,1323010,2371586,3420162,4468738,5517314,6565890,7614466,1388546,2437122,3485698,4534274,5582850,6631426,7680002,1118211,2166787,3215363,4263939,5312515,6361091,7409667,1183747,2232323,3280899,4329475,5378051,6426627,7475203,1249283,2297859,3346435,4395011,5443587,6492163,7540739,1314819,2363395,3411971,4460547,5509123,6557699,7606275,1380355,2428931,3477507,4526083,5574659,6623235,7671811,1122307,2170883,3219459,4268035,5316611,6365187,7413763,1187843,2236419,3284995,4333571,5382147,6430723,7479299,1253379,2301955,3350531,4399107,5447683,6496259,7544835,1318915,2367491,3416067,4464643,5513219,6561795,7610371,1384451,2433027,3481603,4530179,5578755,6627331,7675907,1126403,2174979,3223555,4272131,5320707,6369283,7417859,1191939,2240515,3289091,4337667,5386243,6434819,7483395,1257475,2306051,3354627,4403203,5451779,6500355,7548931,1323011,2371587,3420163,4468739,5517315,6565891,7614467,1388547,2437123,3485699,4534275,5582851,6631427,7680003,1118224,2166800,3215376,4263952,5312528,6361104,7409680,1183760,2232336,3280912,4329488,5378064,6426640,7475216,1249296,2297872,3346448,4395024,5443600,6492176,7540752,1314832,2363408,3411984,4460560,5509136,6557712,7606288,1380368,2428944,3477520,4526096,5574672,6623248,7671824,1122320,2170896,3219472,4268048,5316624,6365200,7413776,1187856,2236432,3285008,4333584,5382160,6430736,7479312,1253392,2301968,3350544,4399120,5447696,6496272,7544848,1318928,2367504,3416080,4464656,5513232,6561808,7610384,1384464,2433040,3481616,4530192,5578768,6627344,7675920,1126416,2174992,3223568,4272144,5320720,6369296,7417872,1191952,2240528,3289104,4337680,5386256,6434832,7483408,1257488,2306064,3354640,4403216,5451792,6500368,7548944,1323024,2371600,3420176,4468752,5517328,6565904,7614480,1388560,2437136,3485712,4534288,5582864,6631440,7680016,1118240,2166816,3215392,4263968,5312544,6361120,7409696,1183776,2232352,3280928,4329504,5378080,6426656,7475232,1249312,2297888,3346464,4395040,5443616,6492192,7540768,1314848,2363424,3412000,4460576,5509152,6557728,7606304,1380384,2428960,3477536,4526112,5574688,6623264,7671840,1122336,2170912,3219488,4268064,5316640,6365216,7413792,1187872,2236448,3285024,4333600,5382176,6430752,7479328,1253408,2301984,3350560,4399136,5447712,6496288,7544864,1318944,2367520,3416096,4464672,5513248,6561824,7610400,1384480,2433056,3481632,4530208,5578784,6627360,7675936,1126432,2175008,3223584,4272160,5320736,6369312,7417888,1191968,2240544,3289120,4337696,5386272,6434848,7483424,1257504,2306080,3354656,4403232,5451808,6500384,7548960,1323040,2371616,3420192,4468768,5517344,6565920,7614496,1388576,2437152,3485728,4534304,5582880,6631456,7680032,1118256,2166832,3215408,4263984,5312560,6361136,7409712,1183792,2232368,3280944,4329520,5378096,6426672,7475248,1249328,2297904,3346480,4395056,5443632,6492208,7540784,1314864,2363440,3412016,4460592,5509168,6557744,7606320,1380400,2428976,3477552,4526128,5574704,6623280,7671856,1122352,2170928,3219504,4268080,5316656,6365232,7413808,1187888,2236464,3285040,4333616,5382192,6430768,7479344,1253424,2302000,3350576,4399152,5447728,6496304,7544880,1318960,2367536,3416112,4464688,5513264,6561840,7610416,1384496,2433072,3481648,4530224,5578800,6627376,7675952,1126448,2175024,3223600,4272176,5320752,6369328,7417904,1191984,2240560,3289136,4337712,5386288,6434864,7483440,1257520,2306096,3354672,4403248,5451824,6500400,7548976,1323056,2371632,3420208,4468784,5517360,6565936,7614512,1388592,2437168,3485744,4534320,5582896,6631472,7680048,1118464,2167040,3215616,4264192,5312768,6361344,7409920,8458496,9507072,1184000,2232576,3281152,4329728,5378304,6426880,7475456,8524032,9572608,1249536,2298112,3346688,4395264,5443840,6492416,7540992,8589568,9638144,1315072,2363648,3412224,4460800,5509376,6557952,7606528,8655104,9703680,1380608,2429184,3477760,4526336,5574912,6623488,7672064,8720640,9769216,1446144,2494720,3543296,4591872,5640448,6689024,7737600,8786176,9834752,1511680,2560256,3608832,4657408,5705984,6754560,7803136,8851712,9900288,1122560,2171136,3219712,4268288,5316864,6365440,7414016,8462592,9511168,1188096,2236672,3285248,4333824,5382400,6430976,7479552,8528128,9576704,1253632,2302208,3350784,4399360,5447936,6496512,7545088,8593664,9642240,1319168,2367744,3416320,4464896,5513472,6562048,7610624,8659200,9707776,1384704,2433280,3481856,4530432,5579008,6627584,7676160,8724736,9773312,1450240,2498816,3547392,4595968,5644544,6693120,7741696,8790272,9838848,1515776,2564352,3612928,4661504,5710080,6758656,7807232,8855808,9904384,1126656,2175232,3223808,4272384,5320960,6369536,7418112,8466688,9515264,1192192,2240768,3289344,4337920,5386496,6435072,7483648,8532224,9580800,1257728,2306304,3354880,4403456,5452032,6500608,7549184,8597760,9646336,1323264,2371840,3420416,4468992,5517568,6566144,7614720,8663296,9711872,1388800,2437376,3485952,4534528,5583104,6631680,7680256,8728832,9777408,1454336,2502912,3551488,4600064,5648640,6697216,7745792,8794368,9842944,1519872,2568448,3617024,4665600,5714176,6762752,7811328,8859904,9908480,1130752,2179328,3227904,4276480,5325056,6373632,7422208,8470784,9519360,1196288,2244864,3293440,4342016,5390592,6439168,7487744,8536320,9584896,1261824,2310400,3358976,4407552,5456128,6504704,7553280,8601856,9650432,1327360,2375936,3424512,4473088,5521664,6570240,7618816,8667392,9715968,1392896,2441472,3490048,4538624,5587200,6635776,7684352,8732928,9781504,1458432,2507008,3555584,4604160,5652736,6701312,7749888,8798464,9847040,1523968,2572544,3621120,4669696,5718272,6766848,7815424,8864000,9912576,1134848,2183424,3232000,4280576,5329152,6377728,7426304,8474880,9523456,1200384,2248960,3297536,4346112,5394688,6443264,7491840,8540416,9588992,1265920,2314496,3363072,4411648,5460224,6508800,7557376,8605952,9654528,1331456,2380032,3428608,4477184,5525760,6574336,7622912,8671488,9720064,1396992,2445568,3494144,4542720,5591296,6639872,7688448,8737024,9785600,1462528,2511104,3559680,4608256,5656832,6705408,7753984,8802560,9851136,1528064,2576640,3625216,4673792,5722368,6770944,7819520,8868096,9916672,1118720,2167296,3215872,4264448,5313024,6361600,7410176,8458752,9507328,1184256,2232832,3281408,4329984,5378560,6427136,7475712,8524288,9572864,1249792,2298368,3346944,4395520,5444096,6492672,7541248,8589824,9638400,1315328,2363904,3412480,4461056,5509632,6558208,7606784,8655360,9703936,1380864,2429440,3478016,4526592,5575168,6623744,7672320,8720896,9769472,1446400,2494976,3543552,4592128,5640704,6689280,7737856,8786432,9835008,1511936,2560512,3609088,4657664,5706240,6754816,7803392,8851968,9900544,1122816,2171392,3219968,4268544,5317120,6365696,7414272,8462848,9511424,1188352,2236928,3285504,4334080,5382656,6431232,7479808,8528384,9576960,1253888,2302464,3351040,4399616,5448192,6496768,7545344,8593920,9642496,1319424,2368000,3416576,4465152,5513728,6562304,7610880,8659456,9708032,1384960,2433536,3482112,4530688,5579264,6627840,7676416,8724992,9773568,1450496,2499072,3547648,4596224,5644800,6693376,7741952,8790528,9839104,1516032,2564608,3613184,4661760,5710336,6758912,7807488,8856064,9904640,1126912,2175488,3224064,4272640,5321216,6369792,7418368,8466944,9515520,1192448,2241024,3289600,4338176,5386752,6435328,7483904,8532480,9581056,1257984,2306560,3355136,4403712,5452288,6500864,7549440,8598016,9646592,1323520,2372096,3420672,4469248,5517824,6566400,7614976,8663552,9712128,1389056,2437632,3486208,4534784,5583360,6631936,7680512,8729088,9777664,1454592,2503168,3551744,4600320,5648896,6697472,7746048,8794624,9843200,1520128,2568704,3617280,4665856,5714432,6763008,7811584,8860160,9908736,1131008,2179584,3228160,4276736,5325312,6373888,7422464,8471040,9519616,1196544,2245120,3293696,4342272,5390848,6439424,7488000,8536576,9585152,1262080,2310656,3359232,4407808,5456384,6504960,7553536,8602112,9650688,1327616,2376192,3424768,4473344,5521920,6570496,7619072,8667648,9716224,1393152,2441728,3490304,4538880,5587456,6636032,7684608,8733184,9781760,1458688,2507264,3555840,4604416,5652992,6701568,7750144,8798720,9847296,1524224,2572800,3621376,4669952,5718528,6767104,7815680,8864256,9912832,1135104,2183680,3232256,4280832,5329408,6377984,7426560,8475136,9523712,1200640,2249216,3297792,4346368,5394944,6443520,7492096,8540672,9589248,1266176,2314752,3363328,4411904,5460480,6509056,7557632,8606208,9654784,1331712,2380288,3428864,4477440,5526016,6574592,7623168,8671744,9720320,1397248,2445824,3494400,4542976,5591552,6640128,7688704,8737280,9785856,1462784,2511360,3559936,4608512,5657088,6705664,7754240,8802816,9851392,1528320,2576896,3625472,4674048,5722624,6771200,7819776,8868352,9916928,1118976,2167552,3216128,4264704,5313280,6361856,7410432,8459008,9507584,1184512,2233088,3281664,4330240,5378816,6427392,7475968,8524544,9573120,1250048,2298624,3347200,4395776,5444352,6492928,7541504,8590080,9638656,1315584,2364160,3412736,4461312,5509888,6558464,7607040,8655616,9704192,1381120,2429696,3478272,4526848,5575424,6624000,7672576,8721152,9769728,1446656,2495232,3543808,4592384,5640960,6689536,7738112,8786688,9835264,1512192,2560768,3609344,4657920,5706496,6755072,7803648,8852224,9900800,1123072,2171648,3220224,4268800,5317376,6365952,7414528,8463104,9511680,1188608,2237184,3285760,4334336,5382912,6431488,7480064,8528640,9577216,1254144,2302720,3351296,4399872,5448448,6497024,7545600,8594176,9642752,1319680,2368256,3416832,4465408,5513984,6562560,7611136,8659712,9708288,1385216,2433792,3482368,4530944,5579520,6628096,7676672,8725248,9773824,1450752,2499328,3547904,4596480,5645056,6693632,7742208,8790784,9839360,1516288,2564864,3613440,4662016,5710592,6759168,7807744,8856320,9904896,1127168,2175744,3224320,4272896,5321472,6370048,7418624,8467200,9515776,1192704,2241280,3289856,4338432,5387008,6435584,7484160,8532736,9581312,1258240,2306816,3355392,4403968,5452544,6501120,7549696,8598272,9646848,1323776,2372352,3420928,4469504,5518080,6566656,7615232,8663808,9712384,1389312,2437888,3486464,4535040,5583616,6632192,7680768,8729344,9777920,1454848,2503424,3552000,4600576,5649152,6697728,7746304,8794880,9843456,1520384,2568960,3617536,4666112,5714688,6763264,7811840,8860416,9908992,1131264,2179840,3228416,4276992,5325568,6374144,7422720,8471296,9519872,1196800,2245376,3293952,4342528,5391104,6439680,7488256,8536832,9585408,1262336,2310912,3359488,4408064,5456640,6505216,7553792,8602368,9650944,1327872,2376448,3425024,4473600,5522176,6570752,7619328,8667904,9716480,1393408,2441984,3490560,4539136,5587712,6636288,7684864,8733440,9782016,1458944,2507520,3556096,4604672,5653248,6701824,7750400,8798976,9847552,1524480,2573056,3621632,4670208,5718784,6767360,7815936,8864512,9913088,1135360,2183936,3232512,4281088,5329664,6378240,7426816,8475392,9523968,1200896,2249472,3298048,4346624,5395200,6443776,7492352,8540928,9589504,1266432,2315008,3363584,4412160,5460736,6509312,7557888,8606464,9655040,1331968,2380544,3429120,4477696,5526272,6574848,7623424,8672000,9720576,1397504,2446080,3494656,4543232,5591808,6640384,7688960,8737536,9786112,1463040,2511616,3560192,4608768,5657344,6705920,7754496,8803072,9851648,1528576,2577152,3625728,4674304,5722880,6771456,7820032,8868608,9917184,16777216,33554432,50331648,16777217,33554433,50331649,16777218,33554434,50331650,16777219,33554435,50331651,16777232,33554448,50331664,16777248,33554464,50331680,16777264,33554480,50331696,16777233,33554449,50331665,16777249,33554465,50331681,16777265,33554481,50331697,16777281,33554497,50331713,16777297,33554513,50331729,16777234,33554450,50331666,16777250,33554466,50331682,16777266,33554482,50331698,16777282,33554498,50331714,16777298,33554514,50331730,16777235,33554451,50331667,16777251,33554467,50331683,16777267,33554483,50331699,16777283,33554499,50331715,16777299,33554515,50331731,16777472,33554688,50331904,16777728,33554944,50332160,16777984,33555200,50332416,16777473,33554689,50331905,16777729,33554945,50332161,16777985,33555201,50332417,16777474,33554690,50331906,16777730,33554946,50332162,16777986,33555202,50332418,16777475,33554691,50331907,16777731,33554947,50332163,16777987,33555203,50332419,16777488,33554704,50331920,16777744,33554960,50332176,16778000,33555216,50332432,16778256,33555472,50332688,16778512,33555728,50332944,16777504,33554720,50331936,16777760,33554976,50332192,16778016,33555232,50332448,16778272,33555488,50332704,16778528,33555744,50332960,16777520,33554736,50331952,16777776,33554992,50332208,16778032,33555248,50332464,16778288,33555504,50332720,16778544,33555760,50332976,16777489,33554705,50331921,16777745,33554961,50332177,16778001,33555217,50332433,16778257,33555473,50332689,16778513,33555729,50332945,16778769,33555985,50333201,16779025,33556241,50333457,16777505,33554721,50331937,16777761,33554977,50332193,16778017,33555233,50332449,16778273,33555489,50332705,16778529,33555745,50332961,16778785,33556001,50333217,16779041,33556257,50333473,16777521,33554737,50331953,16777777,33554993,50332209,16778033,33555249,50332465,16778289,33555505,50332721,16778545,33555761,50332977,16778801,33556017,50333233,16779057,33556273,50333489,16777537,33554753,50331969,16777793,33555009,50332225,16778049,33555265,50332481,16778305,33555521,50332737,16778561,33555777,50332993,16778817,33556033,50333249,16779073,33556289,50333505,16777553,33554769,50331985,16777809,33555025,50332241,16778065,33555281,50332497,16778321,33555537,50332753,16778577,33555793,50333009,16778833,33556049,50333265,16779089,33556305,50333521,16777490,33554706,50331922,16777746,33554962,50332178,16778002,33555218,50332434,16778258,33555474,50332690,16778514,33555730,50332946,16778770,33555986,50333202,16779026,33556242,50333458,16777506,33554722,50331938,16777762,33554978,50332194,16778018,33555234,50332450,16778274,33555490,50332706,16778530,33555746,50332962,16778786,33556002,50333218,16779042,33556258,50333474,16777522,33554738,50331954,16777778,33554994,50332210,16778034,33555250,50332466,16778290,33555506,50332722,16778546,33555762,50332978,16778802,33556018,50333234,16779058,33556274,50333490,16777538,33554754,50331970,16777794,33555010,50332226,16778050,33555266,50332482,16778306,33555522,50332738,16778562,33555778,50332994,16778818,33556034,50333250,16779074,33556290,50333506,16777554,33554770,50331986,16777810,33555026,50332242,16778066,33555282,50332498,16778322,33555538,50332754,16778578,33555794,50333010,16778834,33556050,50333266,16779090,33556306,50333522,16777491,33554707,50331923,16777747,33554963,50332179,16778003,33555219,50332435,16778259,33555475,50332691,16778515,33555731,50332947,16778771,33555987,50333203,16779027,33556243,50333459,16777507,33554723,50331939,16777763,33554979,50332195,16778019,33555235,50332451,16778275,33555491,50332707,16778531,33555747,50332963,16778787,33556003,50333219,16779043,33556259,50333475,16777523,33554739,50331955,16777779,33554995,50332211,16778035,33555251,50332467,16778291,33555507,50332723,16778547,33555763,50332979,16778803,33556019,50333235,16779059,33556275,50333491,16777539,33554755,50331971,16777795,33555011,50332227,16778051,33555267,50332483,16778307,33555523,50332739,16778563,33555779,50332995,16778819,33556035,50333251,16779075,33556291,50333507,16777555,33554771,50331987,16777811,33555027,50332243,16778067,33555283,50332499,16778323,33555539,50332755,16778579,33555795,50333011,16778835,33556051,50333267,16779091,33556307,50333523,16781312,33558528,50335744,16785408,33562624,50339840,16789504,33566720,50343936,16781313,33558529,50335745,16785409,33562625,50339841,16789505,33566721,50343937,16781314,33558530,50335746,16785410,33562626,50339842,16789506,33566722,50343938,16781315,33558531,50335747,16785411,33562627,50339843,16789507,33566723,50343939,16781328,33558544,50335760,16785424,33562640,50339856,16789520,33566736,50343952,16781344,33558560,50335776,16785440,33562656,50339872,16789536,33566752,50343968,16781360,33558576,50335792,16785456,33562672,50339888,16789552,33566768,50343984,16781329,33558545,50335761,16785425,33562641,50339857,16789521,33566737,50343953,16781345,33558561,50335777,16785441,33562657,50339873,16789537,33566753,50343969,16781361,33558577,50335793,16785457,33562673,50339889,16789553,33566769,50343985,16781377,33558593,50335809,16785473,33562689,50339905,16789569,33566785,50344001,16781393,33558609,50335825,16785489,33562705,50339921,16789585,33566801,50344017,16781330,33558546,50335762,16785426,33562642,50339858,16789522,33566738,50343954,16781346,33558562,50335778,16785442,33562658,50339874,16789538,33566754,50343970,16781362,33558578,50335794,16785458,33562674,50339890,16789554,33566770,50343986,16781378,33558594,50335810,16785474,33562690,50339906,16789570,33566786,50344002,16781394,33558610,50335826,16785490,33562706,50339922,16789586,33566802,50344018,16781331,33558547,50335763,16785427,33562643,50339859,16789523,33566739,50343955,16781347,33558563,50335779,16785443,33562659,50339875,16789539,33566755,50343971,16781363,33558579,50335795,16785459,33562675,50339891,16789555,33566771,50343987,16781379,33558595,50335811,16785475,33562691,50339907,16789571,33566787,50344003,16781395,33558611,50335827,16785491,33562707,50339923,16789587,33566803,50344019,16781568,33558784,50336000,16785664,33562880,50340096,16789760,33566976,50344192,16793856,33571072,50348288,16797952,33575168,50352384,16781824,33559040,50336256,16785920,33563136,50340352,16790016,33567232,50344448,16794112,33571328,50348544,16798208,33575424,50352640,16782080,33559296,50336512,16786176,33563392,50340608,16790272,33567488,50344704,16794368,33571584,50348800,16798464,33575680,50352896,16781569,33558785,50336001,16785665,33562881,50340097,16789761,33566977,50344193,16793857,33571073,50348289,16797953,33575169,50352385,16781825,33559041,50336257,16785921,33563137,50340353,16790017,33567233,50344449,16794113,33571329,50348545,16798209,33575425,50352641,16782081,33559297,50336513,16786177,33563393,50340609,16790273,33567489,50344705,16794369,33571585,50348801,16798465,33575681,50352897,16781570,33558786,50336002,16785666,33562882,50340098,16789762,33566978,50344194,16793858,33571074,50348290,16797954,33575170,50352386,16781826,33559042,50336258,16785922,33563138,50340354,16790018,33567234,50344450,16794114,33571330,50348546,16798210,33575426,50352642,16782082,33559298,50336514,16786178,33563394,50340610,16790274,33567490,50344706,16794370,33571586,50348802,16798466,33575682,50352898,16781571,33558787,50336003,16785667,33562883,50340099,16789763,33566979,50344195,16793859,33571075,50348291,16797955,33575171,50352387,16781827,33559043,50336259,16785923,33563139,50340355,16790019,33567235,50344451,16794115,33571331,50348547,16798211,33575427,50352643,16782083,33559299,50336515,16786179,33563395,50340611,16790275,33567491,50344707,16794371,33571587,50348803,16798467,33575683,50352899,16781584,33558800,50336016,16785680,33562896,50340112,16789776,33566992,50344208,16793872,33571088,50348304,16797968,33575184,50352400,16802064,33579280,50356496,16806160,33583376,50360592,16781840,33559056,50336272,16785936,33563152,50340368,16790032,33567248,50344464,16794128,33571344,50348560,16798224,33575440,50352656,16802320,33579536,50356752,16806416,33583632,50360848,16782096,33559312,50336528,16786192,33563408,50340624,16790288,33567504,50344720,16794384,33571600,50348816,16798480,33575696,50352912,16802576,33579792,50357008,16806672,33583888,50361104,16782352,33559568,50336784,16786448,33563664,50340880,16790544,33567760,50344976,16794640,33571856,50349072,16798736,33575952,50353168,16802832,33580048,50357264,16806928,33584144,50361360,16782608,33559824,50337040,16786704,33563920,50341136,16790800,33568016,50345232,16794896,33572112,50349328,16798992,33576208,50353424,16803088,33580304,50357520,16807184,33584400,50361616,16781600,33558816,50336032,16785696,33562912,50340128,16789792,33567008,50344224,16793888,33571104,50348320,16797984,33575200,50352416,16802080,33579296,50356512,16806176,33583392,50360608,16781856,33559072,50336288,16785952,33563168,50340384,16790048,33567264,50344480,16794144,33571360,50348576,16798240,33575456,50352672,16802336,33579552,50356768,16806432,33583648,50360864,16782112,33559328,50336544,16786208,33563424,50340640,16790304,33567520,50344736,16794400,33571616,50348832,16798496,33575712,50352928,16802592,33579808,50357024,16806688,33583904,50361120,16782368,33559584,50336800,16786464,33563680,50340896,16790560,33567776,50344992,16794656,33571872,50349088,16798752,33575968,50353184,16802848,33580064,50357280,16806944,33584160,50361376,16782624,33559840,50337056,16786720,33563936,50341152,16790816,33568032,50345248,16794912,33572128,50349344,16799008,33576224,50353440,16803104,33580320,50357536,16807200,33584416,50361632,16781616,33558832,50336048,16785712,33562928,50340144,16789808,33567024,50344240,16793904,33571120,50348336,16798000,33575216,50352432,16802096,33579312,50356528,16806192,33583408,50360624,16781872,33559088,50336304,16785968,33563184,50340400,16790064,33567280,50344496,16794160,33571376,50348592,16798256,33575472,50352688,16802352,33579568,50356784,16806448,33583664,50360880,16782128,33559344,50336560,16786224,33563440,50340656,16790320,33567536,50344752,16794416,33571632,50348848,16798512,33575728,50352944,16802608,33579824,50357040,16806704,33583920,50361136,16782384,33559600,50336816,16786480,33563696,50340912,16790576,33567792,50345008,16794672,33571888,50349104,16798768,33575984,50353200,16802864,33580080,50357296,16806960,33584176,50361392,16782640,33559856,50337072,16786736,33563952,50341168,16790832,33568048,50345264,16794928,33572144,50349360,16799024,33576240,50353456,16803120,33580336,50357552,16807216,33584432,50361648,16842752,33619968,50397184,16908288,33685504,50462720,16973824,33751040,50528256,16842753,33619969,50397185,16908289,33685505,50462721,16973825,33751041,50528257,16842754,33619970,50397186,16908290,33685506,50462722,16973826,33751042,50528258,16842755,33619971,50397187,16908291,33685507,50462723,16973827,33751043,50528259,16842768,33619984,50397200,16908304,33685520,50462736,16973840,33751056,50528272,16842784,33620000,50397216,16908320,33685536,50462752,16973856,33751072,50528288,16842800,33620016,50397232,16908336,33685552,50462768,16973872,33751088,50528304,16842769,33619985,50397201,16908305,33685521,50462737,16973841,33751057,50528273,16842785,33620001,50397217,16908321,33685537,50462753,16973857,33751073,50528289,16842801,33620017,50397233,16908337,33685553,50462769,16973873,33751089,50528305,16842817,33620033,50397249,16908353,33685569,50462785,16973889,33751105,50528321,16842833,33620049,50397265,16908369,33685585,50462801,16973905,33751121,50528337,16842770,33619986,50397202,16908306,33685522,50462738,16973842,33751058,50528274,16842786,33620002,50397218,16908322,33685538,50462754,16973858,33751074,50528290,16842802,33620018,50397234,16908338,33685554,50462770,16973874,33751090,50528306,16842818,33620034,50397250,16908354,33685570,50462786,16973890,33751106,50528322,16842834,33620050,50397266,16908370,33685586,50462802,16973906,33751122,50528338,16842771,33619987,50397203,16908307,33685523,50462739,16973843,33751059,50528275,16842787,33620003,50397219,16908323,33685539,50462755,16973859,33751075,50528291,16842803,33620019,50397235,16908339,33685555,50462771,16973875,33751091,50528307,16842819,33620035,50397251,16908355,33685571,50462787,16973891,33751107,50528323,16842835,33620051,50397267,16908371,33685587,50462803,16973907,33751123,50528339,16843008,33620224,50397440,16908544,33685760,50462976,16974080,33751296,50528512,16843264,33620480,50397696,16908800,33686016,50463232,16974336,33751552,50528768,16843520,33620736,50397952,16909056,33686272,50463488,16974592,33751808,50529024,16843009,33620225,50397441,16908545,33685761,50462977,16974081,33751297,50528513,16843265,33620481,50397697,16908801,33686017,50463233,16974337,33751553,50528769,16843521,33620737,50397953,16909057,33686273,50463489,16974593,33751809,50529025,16843010,33620226,50397442,16908546,33685762,50462978,16974082,33751298,50528514,16843266,33620482,50397698,16908802,33686018,50463234,16974338,33751554,50528770,16843522,33620738,50397954,16909058,33686274,50463490,16974594,33751810,50529026,16843011,33620227,50397443,16908547,33685763,50462979,16974083,33751299,50528515,16843267,33620483,50397699,16908803,33686019,50463235,16974339,33751555,50528771,16843523,33620739,50397955,16909059,33686275,50463491,16974595,33751811,50529027,16843024,33620240,50397456,16908560,33685776,50462992,16974096,33751312,50528528,16843280,33620496,50397712,16908816,33686032,50463248,16974352,33751568,50528784,16843536,33620752,50397968,16909072,33686288,50463504,16974608,33751824,50529040,16843792,33621008,50398224,16909328,33686544,50463760,16974864,33752080,50529296,16844048,33621264,50398480,16909584,33686800,50464016,16975120,33752336,50529552,16843040,33620256,50397472,16908576,33685792,50463008,16974112,33751328,50528544,16843296,33620512,50397728,16908832,33686048,50463264,16974368,33751584,50528800,16843552,33620768,50397984,16909088,33686304,50463520,16974624,33751840,50529056,16843808,33621024,50398240,16909344,33686560,50463776,16974880,33752096,50529312,16844064,33621280,50398496,16909600,33686816,50464032,16975136,33752352,50529568,16843056,33620272,50397488,16908592,33685808,50463024,16974128,33751344,50528560,16843312,33620528,50397744,16908848,33686064,50463280,16974384,33751600,50528816,16843568,33620784,50398000,16909104,33686320,50463536,16974640,33751856,50529072,16843824,33621040,50398256,16909360,33686576,50463792,16974896,33752112,50529328,16844080,33621296,50398512,16909616,33686832,50464048,16975152,33752368,50529584,16846848,33624064,50401280,16912384,33689600,50466816,16977920,33755136,50532352,17043456,33820672,50597888,17108992,33886208,50663424,16850944,33628160,50405376,16916480,33693696,50470912,16982016,33759232,50536448,17047552,33824768,50601984,17113088,33890304,50667520,16855040,33632256,50409472,16920576,33697792,50475008,16986112,33763328,50540544,17051648,33828864,50606080,17117184,33894400,50671616,16846849,33624065,50401281,16912385,33689601,50466817,16977921,33755137,50532353,17043457,33820673,50597889,17108993,33886209,50663425,16850945,33628161,50405377,16916481,33693697,50470913,16982017,33759233,50536449,17047553,33824769,50601985,17113089,33890305,50667521,16855041,33632257,50409473,16920577,33697793,50475009,16986113,33763329,50540545,17051649,33828865,50606081,17117185,33894401,50671617,16846850,33624066,50401282,16912386,33689602,50466818,16977922,33755138,50532354,17043458,33820674,50597890,17108994,33886210,50663426,16850946,33628162,50405378,16916482,33693698,50470914,16982018,33759234,50536450,17047554,33824770,50601986,17113090,33890306,50667522,16855042,33632258,50409474,16920578,33697794,50475010,16986114,33763330,50540546,17051650,33828866,50606082,17117186,33894402,50671618,16846851,33624067,50401283,16912387,33689603,50466819,16977923,33755139,50532355,17043459,33820675,50597891,17108995,33886211,50663427,16850947,33628163,50405379,16916483,33693699,50470915,16982019,33759235,50536451,17047555,33824771,50601987,17113091,33890307,50667523,16855043,33632259,50409475,16920579,33697795,50475011,16986115,33763331,50540547,17051651,33828867,50606083,17117187,33894403,50671619,16846864,33624080,50401296,16912400,33689616,50466832,16977936,33755152,50532368,17043472,33820688,50597904,17109008,33886224,50663440,16850960,33628176,50405392,16916496,33693712,50470928,16982032,33759248,50536464,17047568,33824784,50602000,17113104,33890320,50667536,16855056,33632272,50409488,16920592,33697808,50475024,16986128,33763344,50540560,17051664,33828880,50606096,17117200,33894416,50671632,16846880,33624096,50401312,16912416,33689632,50466848,16977952,33755168,50532384,17043488,33820704,50597920,17109024,33886240,50663456,16850976,33628192,50405408,16916512,33693728,50470944,16982048,33759264,50536480,17047584,33824800,50602016,17113120,33890336,50667552,16855072,33632288,50409504,16920608,33697824,50475040,16986144,33763360,50540576,17051680,33828896,50606112,17117216,33894432,50671648,16846896,33624112,50401328,16912432,33689648,50466864,16977968,33755184,50532400,17043504,33820720,50597936,17109040,33886256,50663472,16850992,33628208,50405424,16916528,33693744,50470960,16982064,33759280,50536496,17047600,33824816,50602032,17113136,33890352,50667568,16855088,33632304,50409520,16920624,33697840,50475056,16986160,33763376,50540592,17051696,33828912,50606128,17117232,33894448,50671664,16847104,33624320,50401536,16912640,33689856,50467072,16978176,33755392,50532608,17043712,33820928,50598144,17109248,33886464,50663680,17174784,33952000,50729216,17240320,34017536,50794752,16851200,33628416,50405632,16916736,33693952,50471168,16982272,33759488,50536704,17047808,33825024,50602240,17113344,33890560,50667776,17178880,33956096,50733312,17244416,34021632,50798848,16855296,33632512,50409728,16920832,33698048,50475264,16986368,33763584,50540800,17051904,33829120,50606336,17117440,33894656,50671872,17182976,33960192,50737408,17248512,34025728,50802944,16859392,33636608,50413824,16924928,33702144,50479360,16990464,33767680,50544896,17056000,33833216,50610432,17121536,33898752,50675968,17187072,33964288,50741504,17252608,34029824,50807040,16863488,33640704,50417920,16929024,33706240,50483456,16994560,33771776,50548992,17060096,33837312,50614528,17125632,33902848,50680064,17191168,33968384,50745600,17256704,34033920,50811136,16847360,33624576,50401792,16912896,33690112,50467328,16978432,33755648,50532864,17043968,33821184,50598400,17109504,33886720,50663936,17175040,33952256,50729472,17240576,34017792,50795008,16851456,33628672,50405888,16916992,33694208,50471424,16982528,33759744,50536960,17048064,33825280,50602496,17113600,33890816,50668032,17179136,33956352,50733568,17244672,34021888,50799104,16855552,33632768,50409984,16921088,33698304,50475520,16986624,33763840,50541056,17052160,33829376,50606592,17117696,33894912,50672128,17183232,33960448,50737664,17248768,34025984,50803200,16859648,33636864,50414080,16925184,33702400,50479616,16990720,33767936,50545152,17056256,33833472,50610688,17121792,33899008,50676224,17187328,33964544,50741760,17252864,34030080,50807296,16863744,33640960,50418176,16929280,33706496,50483712,16994816,33772032,50549248,17060352,33837568,50614784,17125888,33903104,50680320,17191424,33968640,50745856,17256960,34034176,50811392,16847616,33624832,50402048,16913152,33690368,50467584,16978688,33755904,50533120,17044224,33821440,50598656,17109760,33886976,50664192,17175296,33952512,50729728,17240832,34018048,50795264,16851712,33628928,50406144,16917248,33694464,50471680,16982784,33760000,50537216,17048320,33825536,50602752,17113856,33891072,50668288,17179392,33956608,50733824,17244928,34022144,50799360,16855808,33633024,50410240,16921344,33698560,50475776,16986880,33764096,50541312,17052416,33829632,50606848,17117952,33895168,50672384,17183488,33960704,50737920,17249024,34026240,50803456,16859904,33637120,50414336,16925440,33702656,50479872,16990976,33768192,50545408,17056512,33833728,50610944,17122048,33899264,50676480,17187584,33964800,50742016,17253120,34030336,50807552,16864000,33641216,50418432,16929536,33706752,50483968,16995072,33772288,50549504,17060608,33837824,50615040,17126144,33903360,50680576,17191680,33968896,50746112,17257216,34034432,50811648,17825792,34603008,51380224,68157440,84934656,18874368,35651584,52428800,69206016,85983232,19922944,36700160,53477376,70254592,87031808,17825793,34603009,51380225,68157441,84934657,18874369,35651585,52428801,69206017,85983233,19922945,36700161,53477377,70254593,87031809,17825794,34603010,51380226,68157442,84934658,18874370,35651586,52428802,69206018,85983234,19922946,36700162,53477378,70254594,87031810,17825795,34603011,51380227,68157443,84934659,18874371,35651587,52428803,69206019,85983235,19922947,36700163,53477379,70254595,87031811,17825808,34603024,51380240,68157456,84934672,18874384,35651600,52428816,69206032,85983248,19922960,36700176,53477392,70254608,87031824,17825824,34603040,51380256,68157472,84934688,18874400,35651616,52428832,69206048,85983264,19922976,36700192,53477408,70254624,87031840,17825840,34603056,51380272,68157488,84934704,18874416,35651632,52428848,69206064,85983280,19922992,36700208,53477424,70254640,87031856,17825809,34603025,51380241,68157457,84934673,18874385,35651601,52428817,69206033,85983249,19922961,36700177,53477393,70254609,87031825,17825825,34603041,51380257,68157473,84934689,18874401,35651617,52428833,69206049,85983265,19922977,36700193,53477409,70254625,87031841,17825841,34603057,51380273,68157489,84934705,18874417,35651633,52428849,69206065,85983281,19922993,36700209,53477425,70254641,87031857,17825857,34603073,51380289,68157505,84934721,18874433,35651649,52428865,69206081,85983297,19923009,36700225,53477441,70254657,87031873,17825873,34603089,51380305,68157521,84934737,18874449,35651665,52428881,69206097,85983313,19923025,36700241,53477457,70254673,87031889,17825810,34603026,51380242,68157458,84934674,18874386,35651602,52428818,69206034,85983250,19922962,36700178,53477394,70254610,87031826,17825826,34603042,51380258,68157474,84934690,18874402,35651618,52428834,69206050,85983266,19922978,36700194,53477410,70254626,87031842,17825842,34603058,51380274,68157490,84934706,18874418,35651634,52428850,69206066,85983282,19922994,36700210,53477426,70254642,87031858,17825858,34603074,51380290,68157506,84934722,18874434,35651650,52428866,69206082,85983298,19923010,36700226,53477442,70254658,87031874,17825874,34603090,51380306,68157522,84934738,18874450,35651666,52428882,69206098,85983314,19923026,36700242,53477458,70254674,87031890,17825811,34603027,51380243,68157459,84934675,18874387,35651603,52428819,69206035,85983251,19922963,36700179,53477395,70254611,87031827,17825827,34603043,51380259,68157475,84934691,18874403,35651619,52428835,69206051,85983267,19922979,36700195,53477411,70254627,87031843,17825843,34603059,51380275,68157491,84934707,18874419,35651635,52428851,69206067,85983283,19922995,36700211,53477427,70254643,87031859,17825859,34603075,51380291,68157507,84934723,18874435,35651651,52428867,69206083,85983299,19923011,36700227,53477443,70254659,87031875,17825875,34603091,51380307,68157523,84934739,18874451,35651667,52428883,69206099,85983315,19923027,36700243,53477459,70254675,87031891,17826048,34603264,51380480,68157696,84934912,18874624,35651840,52429056,69206272,85983488,19923200,36700416,53477632,70254848,87032064,17826304,34603520,51380736,68157952,84935168,18874880,35652096,52429312,69206528,85983744,19923456,36700672,53477888,70255104,87032320,17826560,34603776,51380992,68158208,84935424,18875136,35652352,52429568,69206784,85984000,19923712,36700928,53478144,70255360,87032576,17826049,34603265,51380481,68157697,84934913,18874625,35651841,52429057,69206273,85983489,19923201,36700417,53477633,70254849,87032065,17826305,34603521,51380737,68157953,84935169,18874881,35652097,52429313,69206529,85983745,19923457,36700673,53477889,70255105,87032321,17826561,34603777,51380993,68158209,84935425,18875137,35652353,52429569,69206785,85984001,19923713,36700929,53478145,70255361,87032577,17826050,34603266,51380482,68157698,84934914,18874626,35651842,52429058,69206274,85983490,19923202,36700418,53477634,70254850,87032066,17826306,34603522,51380738,68157954,84935170,18874882,35652098,52429314,69206530,85983746,19923458,36700674,53477890,70255106,87032322,17826562,34603778,51380994,68158210,84935426,18875138,35652354,52429570,69206786,85984002,19923714,36700930,53478146,70255362,87032578,17826051,34603267,51380483,68157699,84934915,18874627,35651843,52429059,69206275,85983491,19923203,36700419,53477635,70254851,87032067,17826307,34603523,51380739,68157955,84935171,18874883,35652099,52429315,69206531,85983747,19923459,36700675,53477891,70255107,87032323,17826563,34603779,51380995,68158211,84935427,18875139,35652355,52429571,69206787,85984003,19923715,36700931,53478147,70255363,87032579,17826064,34603280,51380496,68157712,84934928,18874640,35651856,52429072,69206288,85983504,19923216,36700432,53477648,70254864,87032080,17826320,34603536,51380752,68157968,84935184,18874896,35652112,52429328,69206544,85983760,19923472,36700688,53477904,70255120,87032336,17826576,34603792,51381008,68158224,84935440,18875152,35652368,52429584,69206800,85984016,19923728,36700944,53478160,70255376,87032592,17826832,34604048,51381264,68158480,84935696,18875408,35652624,52429840,69207056,85984272,19923984,36701200,53478416,70255632,87032848,17827088,34604304,51381520,68158736,84935952,18875664,35652880,52430096,69207312,85984528,19924240,36701456,53478672,70255888,87033104,17826080,34603296,51380512,68157728,84934944,18874656,35651872,52429088,69206304,85983520,19923232,36700448,53477664,70254880,87032096,17826336,34603552,51380768,68157984,84935200,18874912,35652128,52429344,69206560,85983776,19923488,36700704,53477920,70255136,87032352,17826592,34603808,51381024,68158240,84935456,18875168,35652384,52429600,69206816,85984032,19923744,36700960,53478176,70255392,87032608,17826848,34604064,51381280,68158496,84935712,18875424,35652640,52429856,69207072,85984288,19924000,36701216,53478432,70255648,87032864,17827104,34604320,51381536,68158752,84935968,18875680,35652896,52430112,69207328,85984544,19924256,36701472,53478688,70255904,87033120,17826096,34603312,51380528,68157744,84934960,18874672,35651888,52429104,69206320,85983536,19923248,36700464,53477680,70254896,87032112,17826352,34603568,51380784,68158000,84935216,18874928,35652144,52429360,69206576,85983792,19923504,36700720,53477936,70255152,87032368,17826608,34603824,51381040,68158256,84935472,18875184,35652400,52429616,69206832,85984048,19923760,36700976,53478192,70255408,87032624,17826864,34604080,51381296,68158512,84935728,18875440,35652656,52429872,69207088,85984304,19924016,36701232,53478448,70255664,87032880,17827120,34604336,51381552,68158768,84935984,18875696,35652912,52430128,69207344,85984560,19924272,36701488,53478704,70255920,87033136,17829888,34607104,51384320,68161536,84938752,18878464,35655680,52432896,69210112,85987328,19927040,36704256,53481472,70258688,87035904,17833984,34611200,51388416,68165632,84942848,18882560,35659776,52436992,69214208,85991424,19931136,36708352,53485568,70262784,87040000,17838080,34615296,51392512,68169728,84946944,18886656,35663872,52441088,69218304,85995520,19935232,36712448,53489664,70266880,87044096,17829889,34607105,51384321,68161537,84938753,18878465,35655681,52432897,69210113,85987329,19927041,36704257,53481473,70258689,87035905,17833985,34611201,51388417,68165633,84942849,18882561,35659777,52436993,69214209,85991425,19931137,36708353,53485569,70262785,87040001,17838081,34615297,51392513,68169729,84946945,18886657,35663873,52441089,69218305,85995521,19935233,36712449,53489665,70266881,87044097,17829890,34607106,51384322,68161538,84938754,18878466,35655682,52432898,69210114,85987330,19927042,36704258,53481474,70258690,87035906,17833986,34611202,51388418,68165634,84942850,18882562,35659778,52436994,69214210,85991426,19931138,36708354,53485570,70262786,87040002,17838082,34615298,51392514,68169730,84946946,18886658,35663874,52441090,69218306,85995522,19935234,36712450,53489666,70266882,87044098,17829891,34607107,51384323,68161539,84938755,18878467,35655683,52432899,69210115,85987331,19927043,36704259,53481475,70258691,87035907,17833987,34611203,51388419,68165635,84942851,18882563,35659779,52436995,69214211,85991427,19931139,36708355,53485571,70262787,87040003,17838083,34615299,51392515,68169731,84946947,18886659,35663875,52441091,69218307,85995523,19935235,36712451,53489667,70266883,87044099,17829904,34607120,51384336,68161552,84938768,18878480,35655696,52432912,69210128,85987344,19927056,36704272,53481488,70258704,87035920,17834000,34611216,51388432,68165648,84942864,18882576,35659792,52437008,69214224,85991440,19931152,36708368,53485584,70262800,87040016,17838096,34615312,51392528,68169744,84946960,18886672,35663888,52441104,69218320,85995536,19935248,36712464,53489680,70266896,87044112,17829920,34607136,51384352,68161568,84938784,18878496,35655712,52432928,69210144,85987360,19927072,36704288,53481504,70258720,87035936,17834016,34611232,51388448,68165664,84942880,18882592,35659808,52437024,69214240,85991456,19931168,36708384,53485600,70262816,87040032,17838112,34615328,51392544,68169760,84946976,18886688,35663904,52441120,69218336,85995552,19935264,36712480,53489696,70266912,87044128,17829936,34607152,51384368,68161584,84938800,18878512,35655728,52432944,69210160,85987376,19927088,36704304,53481520,70258736,87035952,17834032,34611248,51388464,68165680,84942896,18882608,35659824,52437040,69214256,85991472,19931184,36708400,53485616,70262832,87040048,17838128,34615344,51392560,68169776,84946992,18886704,35663920,52441136,69218352,85995568,19935280,36712496,53489712,70266928,87044144,17830144,34607360,51384576,68161792,84939008,18878720,35655936,52433152,69210368,85987584,19927296,36704512,53481728,70258944,87036160,17834240,34611456,51388672,68165888,84943104,18882816,35660032,52437248,69214464,85991680,19931392,36708608,53485824,70263040,87040256,17838336,34615552,51392768,68169984,84947200,18886912,35664128,52441344,69218560,85995776,19935488,36712704,53489920,70267136,87044352,17842432,34619648,51396864,68174080,84951296,18891008,35668224,52445440,69222656,85999872,19939584,36716800,53494016,70271232,87048448,17846528,34623744,51400960,68178176,84955392,18895104,35672320,52449536,69226752,86003968,19943680,36720896,53498112,70275328,87052544,17830400,34607616,51384832,68162048,84939264,18878976,35656192,52433408,69210624,85987840,19927552,36704768,53481984,70259200,87036416,17834496,34611712,51388928,68166144,84943360,18883072,35660288,52437504,69214720,85991936,19931648,36708864,53486080,70263296,87040512,17838592,34615808,51393024,68170240,84947456,18887168,35664384,52441600,69218816,85996032,19935744,36712960,53490176,70267392,87044608,17842688,34619904,51397120,68174336,84951552,18891264,35668480,52445696,69222912,86000128,19939840,36717056,53494272,70271488,87048704,17846784,34624000,51401216,68178432,84955648,18895360,35672576,52449792,69227008,86004224,19943936,36721152,53498368,70275584,87052800,17830656,34607872,51385088,68162304,84939520,18879232,35656448,52433664,69210880,85988096,19927808,36705024,53482240,70259456,87036672,17834752,34611968,51389184,68166400,84943616,18883328,35660544,52437760,69214976,85992192,19931904,36709120,53486336,70263552,87040768,17838848,34616064,51393280,68170496,84947712,18887424,35664640,52441856,69219072,85996288,19936000,36713216,53490432,70267648,87044864,17842944,34620160,51397376,68174592,84951808,18891520,35668736,52445952,69223168,86000384,19940096,36717312,53494528,70271744,87048960,17847040,34624256,51401472,68178688,84955904,18895616,35672832,52450048,69227264,86004480,19944192,36721408,53498624,70275840,87053056,17891328,34668544,51445760,68222976,85000192,101777408,118554624,18939904,35717120,52494336,69271552,86048768,102825984,119603200,19988480,36765696,53542912,70320128,87097344,103874560,120651776,21037056,37814272,54591488,71368704,88145920,104923136,121700352,22085632,38862848,55640064,72417280,89194496,105971712,122748928,17956864,34734080,51511296,68288512,85065728,101842944,118620160,19005440,35782656,52559872,69337088,86114304,102891520,119668736,20054016,36831232,53608448,70385664,87162880,103940096,120717312,21102592,37879808,54657024,71434240,88211456,104988672,121765888,22151168,38928384,55705600,72482816,89260032,106037248,122814464,18022400,34799616,51576832,68354048,85131264,101908480,118685696,19070976,35848192,52625408,69402624,86179840,102957056,119734272,20119552,36896768,53673984,70451200,87228416,104005632,120782848,21168128,37945344,54722560,71499776,88276992,105054208,121831424,22216704,38993920,55771136,72548352,89325568,106102784,122880000,17891329,34668545,51445761,68222977,85000193,101777409,118554625,18939905,35717121,52494337,69271553,86048769,102825985,119603201,19988481,36765697,53542913,70320129,87097345,103874561,120651777,21037057,37814273,54591489,71368705,88145921,104923137,121700353,22085633,38862849,55640065,72417281,89194497,105971713,122748929,17956865,34734081,51511297,68288513,85065729,101842945,118620161,19005441,35782657,52559873,69337089,86114305,102891521,119668737,20054017,36831233,53608449,70385665,87162881,103940097,120717313,21102593,37879809,54657025,71434241,88211457,104988673,121765889,22151169,38928385,55705601,72482817,89260033,106037249,122814465,18022401,34799617,51576833,68354049,85131265,101908481,118685697,19070977,35848193,52625409,69402625,86179841,102957057,119734273,20119553,36896769,53673985,70451201,87228417,104005633,120782849,21168129,37945345,54722561,71499777,88276993,105054209,121831425,22216705,38993921,55771137,72548353,89325569,106102785,122880001,17891330,34668546,51445762,68222978,85000194,101777410,118554626,18939906,35717122,52494338,69271554,86048770,102825986,119603202,19988482,36765698,53542914,70320130,87097346,103874562,120651778,21037058,37814274,54591490,71368706,88145922,104923138,121700354,22085634,38862850,55640066,72417282,89194498,105971714,122748930,17956866,34734082,51511298,68288514,85065730,101842946,118620162,19005442,35782658,52559874,69337090,86114306,102891522,119668738,20054018,36831234,53608450,70385666,87162882,103940098,120717314,21102594,37879810,54657026,71434242,88211458,104988674,121765890,22151170,38928386,55705602,72482818,89260034,106037250,122814466,18022402,34799618,51576834,68354050,85131266,101908482,118685698,19070978,35848194,52625410,69402626,86179842,102957058,119734274,20119554,36896770,53673986,70451202,87228418,104005634,120782850,21168130,37945346,54722562,71499778,88276994,105054210,121831426,22216706,38993922,55771138,72548354,89325570,106102786,122880002,17891331,34668547,51445763,68222979,85000195,101777411,118554627,18939907,35717123,52494339,69271555,86048771,102825987,119603203,19988483,36765699,53542915,70320131,87097347,103874563,120651779,21037059,37814275,54591491,71368707,88145923,104923139,121700355,22085635,38862851,55640067,72417283,89194499,105971715,122748931,17956867,34734083,51511299,68288515,85065731,101842947,118620163,19005443,35782659,52559875,69337091,86114307,102891523,119668739,20054019,36831235,53608451,70385667,87162883,103940099,120717315,21102595,37879811,54657027,71434243,88211459,104988675,121765891,22151171,38928387,55705603,72482819,89260035,106037251,122814467,18022403,34799619,51576835,68354051,85131267,101908483,118685699,19070979,35848195,52625411,69402627,86179843,102957059,119734275,20119555,36896771,53673987,70451203,87228419,104005635,120782851,21168131,37945347,54722563,71499779,88276995,105054211,121831427,22216707,38993923,55771139,72548355,89325571,106102787,122880003,17891344,34668560,51445776,68222992,85000208,101777424,118554640,18939920,35717136,52494352,69271568,86048784,102826000,119603216,19988496,36765712,53542928,70320144,87097360,103874576,120651792,21037072,37814288,54591504,71368720,88145936,104923152,121700368,22085648,38862864,55640080,72417296,89194512,105971728,122748944,17956880,34734096,51511312,68288528,85065744,101842960,118620176,19005456,35782672,52559888,69337104,86114320,102891536,119668752,20054032,36831248,53608464,70385680,87162896,103940112,120717328,21102608,37879824,54657040,71434256,88211472,104988688,121765904,22151184,38928400,55705616,72482832,89260048,106037264,122814480,18022416,34799632,51576848,68354064,85131280,101908496,118685712,19070992,35848208,52625424,69402640,86179856,102957072,119734288,20119568,36896784,53674000,70451216,87228432,104005648,120782864,21168144,37945360,54722576,71499792,88277008,105054224,121831440,22216720,38993936,55771152,72548368,89325584,106102800,122880016,17891360,34668576,51445792,68223008,85000224,101777440,118554656,18939936,35717152,52494368,69271584,86048800,102826016,119603232,19988512,36765728,53542944,70320160,87097376,103874592,120651808,21037088,37814304,54591520,71368736,88145952,104923168,121700384,22085664,38862880,55640096,72417312,89194528,105971744,122748960,17956896,34734112,51511328,68288544,85065760,101842976,118620192,19005472,35782688,52559904,69337120,86114336,102891552,119668768,20054048,36831264,53608480,70385696,87162912,103940128,120717344,21102624,37879840,54657056,71434272,88211488,104988704,121765920,22151200,38928416,55705632,72482848,89260064,106037280,122814496,18022432,34799648,51576864,68354080,85131296,101908512,118685728,19071008,35848224,52625440,69402656,86179872,102957088,119734304,20119584,36896800,53674016,70451232,87228448,104005664,120782880,21168160,37945376,54722592,71499808,88277024,105054240,121831456,22216736,38993952,55771168,72548384,89325600,106102816,122880032,17891376,34668592,51445808,68223024,85000240,101777456,118554672,18939952,35717168,52494384,69271600,86048816,102826032,119603248,19988528,36765744,53542960,70320176,87097392,103874608,120651824,21037104,37814320,54591536,71368752,88145968,104923184,121700400,22085680,38862896,55640112,72417328,89194544,105971760,122748976,17956912,34734128,51511344,68288560,85065776,101842992,118620208,19005488,35782704,52559920,69337136,86114352,102891568,119668784,20054064,36831280,53608496,70385712,87162928,103940144,120717360,21102640,37879856,54657072,71434288,88211504,104988720,121765936,22151216,38928432,55705648,72482864,89260080,106037296,122814512,18022448,34799664,51576880,68354096,85131312,101908528,118685744,19071024,35848240,52625456,69402672,86179888,102957104,119734320,20119600,36896816,53674032,70451248,87228464,104005680,120782896,21168176,37945392,54722608,71499824,88277040,105054256,121831472,22216752,38993968,55771184,72548400,89325616,106102832,122880048,17891584,34668800,51446016,68223232,85000448,101777664,118554880,18940160,35717376,52494592,69271808,86049024,102826240,119603456,19988736,36765952,53543168,70320384,87097600,103874816,120652032,21037312,37814528,54591744,71368960,88146176,104923392,121700608,22085888,38863104,55640320,72417536,89194752,105971968,122749184,17957120,34734336,51511552,68288768,85065984,101843200,118620416,19005696,35782912,52560128,69337344,86114560,102891776,119668992,20054272,36831488,53608704,70385920,87163136,103940352,120717568,21102848,37880064,54657280,71434496,88211712,104988928,121766144,22151424,38928640,55705856,72483072,89260288,106037504,122814720,18022656,34799872,51577088,68354304,85131520,101908736,118685952,19071232,35848448,52625664,69402880,86180096,102957312,119734528,20119808,36897024,53674240,70451456,87228672,104005888,120783104,21168384,37945600,54722816,71500032,88277248,105054464,121831680,22216960,38994176,55771392,72548608,89325824,106103040,122880256,17891840,34669056,51446272,68223488,85000704,101777920,118555136,18940416,35717632,52494848,69272064,86049280,102826496,119603712,19988992,36766208,53543424,70320640,87097856,103875072,120652288,21037568,37814784,54592000,71369216,88146432,104923648,121700864,22086144,38863360,55640576,72417792,89195008,105972224,122749440,17957376,34734592,51511808,68289024,85066240,101843456,118620672,19005952,35783168,52560384,69337600,86114816,102892032,119669248,20054528,36831744,53608960,70386176,87163392,103940608,120717824,21103104,37880320,54657536,71434752,88211968,104989184,121766400,22151680,38928896,55706112,72483328,89260544,106037760,122814976,18022912,34800128,51577344,68354560,85131776,101908992,118686208,19071488,35848704,52625920,69403136,86180352,102957568,119734784,20120064,36897280,53674496,70451712,87228928,104006144,120783360,21168640,37945856,54723072,71500288,88277504,105054720,121831936,22217216,38994432,55771648,72548864,89326080,106103296,122880512,17892096,34669312,51446528,68223744,85000960,101778176,118555392,18940672,35717888,52495104,69272320,86049536,102826752,119603968,19989248,36766464,53543680,70320896,87098112,103875328,120652544,21037824,37815040,54592256,71369472,88146688,104923904,121701120,22086400,38863616,55640832,72418048,89195264,105972480,122749696,17957632,34734848,51512064,68289280,85066496,101843712,118620928,19006208,35783424,52560640,69337856,86115072,102892288,119669504,20054784,36832000,53609216,70386432,87163648,103940864,120718080,21103360,37880576,54657792,71435008,88212224,104989440,121766656,22151936,38929152,55706368,72483584,89260800,106038016,122815232,18023168,34800384,51577600,68354816,85132032,101909248,118686464,19071744,35848960,52626176,69403392,86180608,102957824,119735040,20120320,36897536,53674752,70451968,87229184,104006400,120783616,21168896,37946112,54723328,71500544,88277760,105054976,121832192,22217472,38994688,55771904,72549120,89326336,106103552,122880768,17895424,34672640,51449856,68227072,85004288,101781504,118558720,135335936,152113152,18944000,35721216,52498432,69275648,86052864,102830080,119607296,136384512,153161728,19992576,36769792,53547008,70324224,87101440,103878656,120655872,137433088,154210304,21041152,37818368,54595584,71372800,88150016,104927232,121704448,138481664,155258880,22089728,38866944,55644160,72421376,89198592,105975808,122753024,139530240,156307456,23138304,39915520,56692736,73469952,90247168,107024384,123801600,140578816,157356032,24186880,40964096,57741312,74518528,91295744,108072960,124850176,141627392,158404608,17960960,34738176,51515392,68292608,85069824,101847040,118624256,135401472,152178688,19009536,35786752,52563968,69341184,86118400,102895616,119672832,136450048,153227264,20058112,36835328,53612544,70389760,87166976,103944192,120721408,137498624,154275840,21106688,37883904,54661120,71438336,88215552,104992768,121769984,138547200,155324416,22155264,38932480,55709696,72486912,89264128,106041344,122818560,139595776,156372992,23203840,39981056,56758272,73535488,90312704,107089920,123867136,140644352,157421568,24252416,41029632,57806848,74584064,91361280,108138496,124915712,141692928,158470144,18026496,34803712,51580928,68358144,85135360,101912576,118689792,135467008,152244224,19075072,35852288,52629504,69406720,86183936,102961152,119738368,136515584,153292800,20123648,36900864,53678080,70455296,87232512,104009728,120786944,137564160,154341376,21172224,37949440,54726656,71503872,88281088,105058304,121835520,138612736,155389952,22220800,38998016,55775232,72552448,89329664,106106880,122884096,139661312,156438528,23269376,40046592,56823808,73601024,90378240,107155456,123932672,140709888,157487104,24317952,41095168,57872384,74649600,91426816,108204032,124981248,141758464,158535680,18092032,34869248,51646464,68423680,85200896,101978112,118755328,135532544,152309760,19140608,35917824,52695040,69472256,86249472,103026688,119803904,136581120,153358336,20189184,36966400,53743616,70520832,87298048,104075264,120852480,137629696,154406912,21237760,38014976,54792192,71569408,88346624,105123840,121901056,138678272,155455488,22286336,39063552,55840768,72617984,89395200,106172416,122949632,139726848,156504064,23334912,40112128,56889344,73666560,90443776,107220992,123998208,140775424,157552640,24383488,41160704,57937920,74715136,91492352,108269568,125046784,141824000,158601216,18157568,34934784,51712000,68489216,85266432,102043648,118820864,135598080,152375296,19206144,35983360,52760576,69537792,86315008,103092224,119869440,136646656,153423872,20254720,37031936,53809152,70586368,87363584,104140800,120918016,137695232,154472448,21303296,38080512,54857728,71634944,88412160,105189376,121966592,138743808,155521024,22351872,39129088,55906304,72683520,89460736,106237952,123015168,139792384,156569600,23400448,40177664,56954880,73732096,90509312,107286528,124063744,140840960,157618176,24449024,41226240,58003456,74780672,91557888,108335104,125112320,141889536,158666752,17899520,34676736,51453952,68231168,85008384,101785600,118562816,135340032,152117248,18948096,35725312,52502528,69279744,86056960,102834176,119611392,136388608,153165824,19996672,36773888,53551104,70328320,87105536,103882752,120659968,137437184,154214400,21045248,37822464,54599680,71376896,88154112,104931328,121708544,138485760,155262976,22093824,38871040,55648256,72425472,89202688,105979904,122757120,139534336,156311552,23142400,39919616,56696832,73474048,90251264,107028480,123805696,140582912,157360128,24190976,40968192,57745408,74522624,91299840,108077056,124854272,141631488,158408704,17965056,34742272,51519488,68296704,85073920,101851136,118628352,135405568,152182784,19013632,35790848,52568064,69345280,86122496,102899712,119676928,136454144,153231360,20062208,36839424,53616640,70393856,87171072,103948288,120725504,137502720,154279936,21110784,37888000,54665216,71442432,88219648,104996864,121774080,138551296,155328512,22159360,38936576,55713792,72491008,89268224,106045440,122822656,139599872,156377088,23207936,39985152,56762368,73539584,90316800,107094016,123871232,140648448,157425664,24256512,41033728,57810944,74588160,91365376,108142592,124919808,141697024,158474240,18030592,34807808,51585024,68362240,85139456,101916672,118693888,135471104,152248320,19079168,35856384,52633600,69410816,86188032,102965248,119742464,136519680,153296896,20127744,36904960,53682176,70459392,87236608,104013824,120791040,137568256,154345472,21176320,37953536,54730752,71507968,88285184,105062400,121839616,138616832,155394048,22224896,39002112,55779328,72556544,89333760,106110976,122888192,139665408,156442624,23273472,40050688,56827904,73605120,90382336,107159552,123936768,140713984,157491200,24322048,41099264,57876480,74653696,91430912,108208128,124985344,141762560,158539776,18096128,34873344,51650560,68427776,85204992,101982208,118759424,135536640,152313856,19144704,35921920,52699136,69476352,86253568,103030784,119808000,136585216,153362432,20193280,36970496,53747712,70524928,87302144,104079360,120856576,137633792,154411008,21241856,38019072,54796288,71573504,88350720,105127936,121905152,138682368,155459584,22290432,39067648,55844864,72622080,89399296,106176512,122953728,139730944,156508160,23339008,40116224,56893440,73670656,90447872,107225088,124002304,140779520,157556736,24387584,41164800,57942016,74719232,91496448,108273664,125050880,141828096,158605312,18161664,34938880,51716096,68493312,85270528,102047744,118824960,135602176,152379392,19210240,35987456,52764672,69541888,86319104,103096320,119873536,136650752,153427968,20258816,37036032,53813248,70590464,87367680,104144896,120922112,137699328,154476544,21307392,38084608,54861824,71639040,88416256,105193472,121970688,138747904,155525120,22355968,39133184,55910400,72687616,89464832,106242048,123019264,139796480,156573696,23404544,40181760,56958976,73736192,90513408,107290624,124067840,140845056,157622272,24453120,41230336,58007552,74784768,91561984,108339200,125116416,141893632,158670848,17903616,34680832,51458048,68235264,85012480,101789696,118566912,135344128,152121344,18952192,35729408,52506624,69283840,86061056,102838272,119615488,136392704,153169920,20000768,36777984,53555200,70332416,87109632,103886848,120664064,137441280,154218496,21049344,37826560,54603776,71380992,88158208,104935424,121712640,138489856,155267072,22097920,38875136,55652352,72429568,89206784,105984000,122761216,139538432,156315648,23146496,39923712,56700928,73478144,90255360,107032576,123809792,140587008,157364224,24195072,40972288,57749504,74526720,91303936,108081152,124858368,141635584,158412800,17969152,34746368,51523584,68300800,85078016,101855232,118632448,135409664,152186880,19017728,35794944,52572160,69349376,86126592,102903808,119681024,136458240,153235456,20066304,36843520,53620736,70397952,87175168,103952384,120729600,137506816,154284032,21114880,37892096,54669312,71446528,88223744,105000960,121778176,138555392,155332608,22163456,38940672,55717888,72495104,89272320,106049536,122826752,139603968,156381184,23212032,39989248,56766464,73543680,90320896,107098112,123875328,140652544,157429760,24260608,41037824,57815040,74592256,91369472,108146688,124923904,141701120,158478336,18034688,34811904,51589120,68366336,85143552,101920768,118697984,135475200,152252416,19083264,35860480,52637696,69414912,86192128,102969344,119746560,136523776,153300992,20131840,36909056,53686272,70463488,87240704,104017920,120795136,137572352,154349568,21180416,37957632,54734848,71512064,88289280,105066496,121843712,138620928,155398144,22228992,39006208,55783424,72560640,89337856,106115072,122892288,139669504,156446720,23277568,40054784,56832000,73609216,90386432,107163648,123940864,140718080,157495296,24326144,41103360,57880576,74657792,91435008,108212224,124989440,141766656,158543872,18100224,34877440,51654656,68431872,85209088,101986304,118763520,135540736,152317952,19148800,35926016,52703232,69480448,86257664,103034880,119812096,136589312,153366528,20197376,36974592,53751808,70529024,87306240,104083456,120860672,137637888,154415104,21245952,38023168,54800384,71577600,88354816,105132032,121909248,138686464,155463680,22294528,39071744,55848960,72626176,89403392,106180608,122957824,139735040,156512256,23343104,40120320,56897536,73674752,90451968,107229184,124006400,140783616,157560832,24391680,41168896,57946112,74723328,91500544,108277760,125054976,141832192,158609408,18165760,34942976,51720192,68497408,85274624,102051840,118829056,135606272,152383488,19214336,35991552,52768768,69545984,86323200,103100416,119877632,136654848,153432064,20262912,37040128,53817344,70594560,87371776,104148992,120926208,137703424,154480640,21311488,38088704,54865920,71643136,88420352,105197568,121974784,138752000,155529216,22360064,39137280,55914496,72691712,89468928,106246144,123023360,139800576,156577792,23408640,40185856,56963072,73740288,90517504,107294720,124071936,140849152,157626368,24457216,41234432,58011648,74788864,91566080,108343296,125120512,141897728,158674944,268435456,536870912,805306368,268435457,536870913,805306369,268435458,536870914,805306370,268435459,536870915,805306371,268435460,536870916,805306372,268435461,536870917,805306373,268435472,536870928,805306384,268435488,536870944,805306400,268435504,536870960,805306416,268435473,536870929,805306385,268435489,536870945,805306401,268435505,536870961,805306417,268435521,536870977,805306433,268435537,536870993,805306449,268435553,536871009,805306465,268435569,536871025,805306481,268435474,536870930,805306386,268435490,536870946,805306402,268435506,536870962,805306418,268435522,536870978,805306434,268435538,536870994,805306450,268435554,536871010,805306466,268435570,536871026,805306482,268435475,536870931,805306387,268435491,536870947,805306403,268435507,536870963,805306419,268435523,536870979,805306435,268435539,536870995,805306451,268435555,536871011,805306467,268435571,536871027,805306483,268435476,536870932,805306388,268435492,536870948,805306404,268435508,536870964,805306420,268435524,536870980,805306436,268435540,536870996,805306452,268435556,536871012,805306468,268435572,536871028,805306484,268435477,536870933,805306389,268435493,536870949,805306405,268435509,536870965,805306421,268435525,536870981,805306437,268435541,536870997,805306453,268435557,536871013,805306469,268435573,536871029,805306485,268435712,536871168,805306624,268435968,536871424,805306880,268436224,536871680,805307136,268435713,536871169,805306625,268435969,536871425,805306881,268436225,536871681,805307137,268435714,536871170,805306626,268435970,536871426,805306882,268436226,536871682,805307138,268435715,536871171,805306627,268435971,536871427,805306883,268436227,536871683,805307139,268435716,536871172,805306628,268435972,536871428,805306884,268436228,536871684,805307140,268435717,536871173,805306629,268435973,536871429,805306885,268436229,536871685,805307141,268435728,536871184,805306640,268435984,536871440,805306896,268436240,536871696,805307152,268436496,536871952,805307408,268436752,536872208,805307664,268435744,536871200,805306656,268436000,536871456,805306912,268436256,536871712,805307168,268436512,536871968,805307424,268436768,536872224,805307680,268435760,536871216,805306672,268436016,536871472,805306928,268436272,536871728,805307184,268436528,536871984,805307440,268436784,536872240,805307696,268435729,536871185,805306641,268435985,536871441,805306897,268436241,536871697,805307153,268436497,536871953,805307409,268436753,536872209,805307665,268437009,536872465,805307921,268437265,536872721,805308177,268437521,536872977,805308433,268437777,536873233,805308689,268435745,536871201,805306657,268436001,536871457,805306913,268436257,536871713,805307169,268436513,536871969,805307425,268436769,536872225,805307681,268437025,536872481,805307937,268437281,536872737,805308193,268437537,536872993,805308449,268437793,536873249,805308705,268435761,536871217,805306673,268436017,536871473,805306929,268436273,536871729,805307185,268436529,536871985,805307441,268436785,536872241,805307697,268437041,536872497,805307953,268437297,536872753,805308209,268437553,536873009,805308465,268437809,536873265,805308721,268435777,536871233,805306689,268436033,536871489,805306945,268436289,536871745,805307201,268436545,536872001,805307457,268436801,536872257,805307713,268437057,536872513,805307969,268437313,536872769,805308225,268437569,536873025,805308481,268437825,536873281,805308737,268435793,536871249,805306705,268436049,536871505,805306961,268436305,536871761,805307217,268436561,536872017,805307473,268436817,536872273,805307729,268437073,536872529,805307985,268437329,536872785,805308241,268437585,536873041,805308497,268437841,536873297,805308753,268435809,536871265,805306721,268436065,536871521,805306977,268436321,536871777,805307233,268436577,536872033,805307489,268436833,536872289,805307745,268437089,536872545,805308001,268437345,536872801,805308257,268437601,536873057,805308513,268437857,536873313,805308769,268435825,536871281,805306737,268436081,536871537,805306993,268436337,536871793,805307249,268436593,536872049,805307505,268436849,536872305,805307761,268437105,536872561,805308017,268437361,536872817,805308273,268437617,536873073,805308529,268437873,536873329,805308785,268435730,536871186,805306642,268435986,536871442,805306898,268436242,536871698,805307154,268436498,536871954,805307410,268436754,536872210,805307666,268437010,536872466,805307922,268437266,536872722,805308178,268437522,536872978,805308434,268437778,536873234,805308690,268435746,536871202,805306658,268436002,536871458,805306914,268436258,536871714,805307170,268436514,536871970,805307426,268436770,536872226,805307682,268437026,536872482,805307938,268437282,536872738,805308194,268437538,536872994,805308450,268437794,536873250,805308706,268435762,536871218,805306674,268436018,536871474,805306930,268436274,536871730,805307186,268436530,536871986,805307442,268436786,536872242,805307698,268437042,536872498,805307954,268437298,536872754,805308210,268437554,536873010,805308466,268437810,536873266,805308722,268435778,536871234,805306690,268436034,536871490,805306946,268436290,536871746,805307202,268436546,536872002,805307458,268436802,536872258,805307714,268437058,536872514,805307970,268437314,536872770,805308226,268437570,536873026,805308482,268437826,536873282,805308738,268435794,536871250,805306706,268436050,536871506,805306962,268436306,536871762,805307218,268436562,536872018,805307474,268436818,536872274,805307730,268437074,536872530,805307986,268437330,536872786,805308242,268437586,536873042,805308498,268437842,536873298,805308754,268435810,536871266,805306722,268436066,536871522,805306978,268436322,536871778,805307234,268436578,536872034,805307490,268436834,536872290,805307746,268437090,536872546,805308002,268437346,536872802,805308258,268437602,536873058,805308514,268437858,536873314,805308770,268435826,536871282,805306738,268436082,536871538,805306994,268436338,536871794,805307250,268436594,536872050,805307506,268436850,536872306,805307762,268437106,536872562,805308018,268437362,536872818,805308274,268437618,536873074,805308530,268437874,536873330,805308786,268435731,536871187,805306643,268435987,536871443,805306899,268436243,536871699,805307155,268436499,536871955,805307411,268436755,536872211,805307667,268437011,536872467,805307923,268437267,536872723,805308179,268437523,536872979,805308435,268437779,536873235,805308691,268435747,536871203,805306659,268436003,536871459,805306915,268436259,536871715,805307171,268436515,536871971,805307427,268436771,536872227,805307683,268437027,536872483,805307939,268437283,536872739,805308195,268437539,536872995,805308451,268437795,536873251,805308707,268435763,536871219,805306675,268436019,536871475,805306931,268436275,536871731,805307187,268436531,536871987,805307443,268436787,536872243,805307699,268437043,536872499,805307955,268437299,536872755,805308211,268437555,536873011,805308467,268437811,536873267,805308723,268435779,536871235,805306691,268436035,536871491,805306947,268436291,536871747,805307203,268436547,536872003,805307459,268436803,536872259,805307715,268437059,536872515,805307971,268437315,536872771,805308227,268437571,536873027,805308483,268437827,536873283,805308739,268435795,536871251,805306707,268436051,536871507,805306963,268436307,536871763,805307219,268436563,536872019,805307475,268436819,536872275,805307731,268437075,536872531,805307987,268437331,536872787,805308243,268437587,536873043,805308499,268437843,536873299,805308755,268435811,536871267,805306723,268436067,536871523,805306979,268436323,536871779,805307235,268436579,536872035,805307491,268436835,536872291,805307747,268437091,536872547,805308003,268437347,536872803,805308259,268437603,536873059,805308515,268437859,536873315,805308771,268435827,536871283,805306739,268436083,536871539,805306995,268436339,536871795,805307251,268436595,536872051,805307507,268436851,536872307,805307763,268437107,536872563,805308019,268437363,536872819,805308275,268437619,536873075,805308531,268437875,536873331,805308787,268435732,536871188,805306644,268435988,536871444,805306900,268436244,536871700,805307156,268436500,536871956,805307412,268436756,536872212,805307668,268437012,536872468,805307924,268437268,536872724,805308180,268437524,536872980,805308436,268437780,536873236,805308692,268435748,536871204,805306660,268436004,536871460,805306916,268436260,536871716,805307172,268436516,536871972,805307428,268436772,536872228,805307684,268437028,536872484,805307940,268437284,536872740,805308196,268437540,536872996,805308452,268437796,536873252,805308708,268435764,536871220,805306676,268436020,536871476,805306932,268436276,536871732,805307188,268436532,536871988,805307444,268436788,536872244,805307700,268437044,536872500,805307956,268437300,536872756,805308212,268437556,536873012,805308468,268437812,536873268,805308724,268435780,536871236,805306692,268436036,536871492,805306948,268436292,536871748,805307204,268436548,536872004,805307460,268436804,536872260,805307716,268437060,536872516,805307972,268437316,536872772,805308228,268437572,536873028,805308484,268437828,536873284,805308740,268435796,536871252,805306708,268436052,536871508,805306964,268436308,536871764,805307220,268436564,536872020,805307476,268436820,536872276,805307732,268437076,536872532,805307988,268437332,536872788,805308244,268437588,536873044,805308500,268437844,536873300,805308756,268435812,536871268,805306724,268436068,536871524,805306980,268436324,536871780,805307236,268436580,536872036,805307492,268436836,536872292,805307748,268437092,536872548,805308004,268437348,536872804,805308260,268437604,536873060,805308516,268437860,536873316,805308772,268435828,536871284,805306740,268436084,536871540,805306996,268436340,536871796,805307252,268436596,536872052,805307508,268436852,536872308,805307764,268437108,536872564,805308020,268437364,536872820,805308276,268437620,536873076,805308532,268437876,536873332,805308788,268435733,536871189,805306645,268435989,536871445,805306901,268436245,536871701,805307157,268436501,536871957,805307413,268436757,536872213,805307669,268437013,536872469,805307925,268437269,536872725,805308181,268437525,536872981,805308437,268437781,536873237,805308693,268435749,536871205,805306661,268436005,536871461,805306917,268436261,536871717,805307173,268436517,536871973,805307429,268436773,536872229,805307685,268437029,536872485,805307941,268437285,536872741,805308197,268437541,536872997,805308453,268437797,536873253,805308709,268435765,536871221,805306677,268436021,536871477,805306933,268436277,536871733,805307189,268436533,536871989,805307445,268436789,536872245,805307701,268437045,536872501,805307957,268437301,536872757,805308213,268437557,536873013,805308469,268437813,536873269,805308725,268435781,536871237,805306693,268436037,536871493,805306949,268436293,536871749,805307205,268436549,536872005,805307461,268436805,536872261,805307717,268437061,536872517,805307973,268437317,536872773,805308229,268437573,536873029,805308485,268437829,536873285,805308741,268435797,536871253,805306709,268436053,536871509,805306965,268436309,536871765,805307221,268436565,536872021,805307477,268436821,536872277,805307733,268437077,536872533,805307989,268437333,536872789,805308245,268437589,536873045,805308501,268437845,536873301,805308757,268435813,536871269,805306725,268436069,536871525,805306981,268436325,536871781,805307237,268436581,536872037,805307493,268436837,536872293,805307749,268437093,536872549,805308005,268437349,536872805,805308261,268437605,536873061,805308517,268437861,536873317,805308773,268435829,536871285,805306741,268436085,536871541,805306997,268436341,536871797,805307253,268436597,536872053,805307509,268436853,536872309,805307765,268437109,536872565,805308021,268437365,536872821,805308277,268437621,536873077,805308533,268437877,536873333,805308789,268439552,536875008,805310464,268443648,536879104,805314560,268447744,536883200,805318656,268439553,536875009,805310465,268443649,536879105,805314561,268447745,536883201,805318657,268439554,536875010,805310466,268443650,536879106,805314562,268447746,536883202,805318658,268439555,536875011,805310467,268443651,536879107,805314563,268447747,536883203,805318659,268439556,536875012,805310468,268443652,536879108,805314564,268447748,536883204,805318660,268439557,536875013,805310469,268443653,536879109,805314565,268447749,536883205,805318661,268439568,536875024,805310480,268443664,536879120,805314576,268447760,536883216,805318672,268439584,536875040,805310496,268443680,536879136,805314592,268447776,536883232,805318688,268439600,536875056,805310512,268443696,536879152,805314608,268447792,536883248,805318704,268439569,536875025,805310481,268443665,536879121,805314577,268447761,536883217,805318673,268439585,536875041,805310497,268443681,536879137,805314593,268447777,536883233,805318689,268439601,536875057,805310513,268443697,536879153,805314609,268447793,536883249,805318705,268439617,536875073,805310529,268443713,536879169,805314625,268447809,536883265,805318721,268439633,536875089,805310545,268443729,536879185,805314641,268447825,536883281,805318737,268439649,536875105,805310561,268443745,536879201,805314657,268447841,536883297,805318753,268439665,536875121,805310577,268443761,536879217,805314673,268447857,536883313,805318769,268439570,536875026,805310482,268443666,536879122,805314578,268447762,536883218,805318674,268439586,536875042,805310498,268443682,536879138,805314594,268447778,536883234,805318690,268439602,536875058,805310514,268443698,536879154,805314610,268447794,536883250,805318706,268439618,536875074,805310530,268443714,536879170,805314626,268447810,536883266,805318722,268439634,536875090,805310546,268443730,536879186,805314642,268447826,536883282,805318738,268439650,536875106,805310562,268443746,536879202,805314658,268447842,536883298,805318754,268439666,536875122,805310578,268443762,536879218,805314674,268447858,536883314,805318770,268439571,536875027,805310483,268443667,536879123,805314579,268447763,536883219,805318675,268439587,536875043,805310499,268443683,536879139,805314595,268447779,536883235,805318691,268439603,536875059,805310515,268443699,536879155,805314611,268447795,536883251,805318707,268439619,536875075,805310531,268443715,536879171,805314627,268447811,536883267,805318723,268439635,536875091,805310547,268443731,536879187,805314643,268447827,536883283,805318739,268439651,536875107,805310563,268443747,536879203,805314659,268447843,536883299,805318755,268439667,536875123,805310579,268443763,536879219,805314675,268447859,536883315,805318771,268439572,536875028,805310484,268443668,536879124,805314580,268447764,536883220,805318676,268439588,536875044,805310500,268443684,536879140,805314596,268447780,536883236,805318692,268439604,536875060,805310516,268443700,536879156,805314612,268447796,536883252,805318708,268439620,536875076,805310532,268443716,536879172,805314628,268447812,536883268,805318724,268439636,536875092,805310548,268443732,536879188,805314644,268447828,536883284,805318740,268439652,536875108,805310564,268443748,536879204,805314660,268447844,536883300,805318756,268439668,536875124,805310580,268443764,536879220,805314676,268447860,536883316,805318772,268439573,536875029,805310485,268443669,536879125,805314581,268447765,536883221,805318677,268439589,536875045,805310501,268443685,536879141,805314597,268447781,536883237,805318693,268439605,536875061,805310517,268443701,536879157,805314613,268447797,536883253,805318709,268439621,536875077,805310533,268443717,536879173,805314629,268447813,536883269,805318725,268439637,536875093,805310549,268443733,536879189,805314645,268447829,536883285,805318741,268439653,536875109,805310565,268443749,536879205,805314661,268447845,536883301,805318757,268439669,536875125,805310581,268443765,536879221,805314677,268447861,536883317,805318773,268439808,536875264,805310720,268443904,536879360,805314816,268448000,536883456,805318912,268452096,536887552,805323008,268456192,536891648,805327104,268440064,536875520,805310976,268444160,536879616,805315072,268448256,536883712,805319168,268452352,536887808,805323264,268456448,536891904,805327360,268440320,536875776,805311232,268444416,536879872,805315328,268448512,536883968,805319424,268452608,536888064,805323520,268456704,536892160,805327616,268439809,536875265,805310721,268443905,536879361,805314817,268448001,536883457,805318913,268452097,536887553,805323009,268456193,536891649,805327105,268440065,536875521,805310977,268444161,536879617,805315073,268448257,536883713,805319169,268452353,536887809,805323265,268456449,536891905,805327361,268440321,536875777,805311233,268444417,536879873,805315329,268448513,536883969,805319425,268452609,536888065,805323521,268456705,536892161,805327617,268439810,536875266,805310722,268443906,536879362,805314818,268448002,536883458,805318914,268452098,536887554,805323010,268456194,536891650,805327106,268440066,536875522,805310978,268444162,536879618,805315074,268448258,536883714,805319170,268452354,536887810,805323266,268456450,536891906,805327362,268440322,536875778,805311234,268444418,536879874,805315330,268448514,536883970,805319426,268452610,536888066,805323522,268456706,536892162,805327618,268439811,536875267,805310723,268443907,536879363,805314819,268448003,536883459,805318915,268452099,536887555,805323011,268456195,536891651,805327107,268440067,536875523,805310979,268444163,536879619,805315075,268448259,536883715,805319171,268452355,536887811,805323267,268456451,536891907,805327363,268440323,536875779,805311235,268444419,536879875,805315331,268448515,536883971,805319427,268452611,536888067,805323523,268456707,536892163,805327619,268439812,536875268,805310724,268443908,536879364,805314820,268448004,536883460,805318916,268452100,536887556,805323012,268456196,536891652,805327108,268440068,536875524,805310980,268444164,536879620,805315076,268448260,536883716,805319172,268452356,536887812,805323268,268456452,536891908,805327364,268440324,536875780,805311236,268444420,536879876,805315332,268448516,536883972,805319428,268452612,536888068,805323524,268456708,536892164,805327620,268439813,536875269,805310725,268443909,536879365,805314821,268448005,536883461,805318917,268452101,536887557,805323013,268456197,536891653,805327109,268440069,536875525,805310981,268444165,536879621,805315077,268448261,536883717,805319173,268452357,536887813,805323269,268456453,536891909,805327365,268440325,536875781,805311237,268444421,536879877,805315333,268448517,536883973,805319429,268452613,536888069,805323525,268456709,536892165,805327621,268439824,536875280,805310736,268443920,536879376,805314832,268448016,536883472,805318928,268452112,536887568,805323024,268456208,536891664,805327120,268460304,536895760,805331216,268464400,536899856,805335312,268440080,536875536,805310992,268444176,536879632,805315088,268448272,536883728,805319184,268452368,536887824,805323280,268456464,536891920,805327376,268460560,536896016,805331472,268464656,536900112,805335568,268440336,536875792,805311248,268444432,536879888,805315344,268448528,536883984,805319440,268452624,536888080,805323536,268456720,536892176,805327632,268460816,536896272,805331728,268464912,536900368,805335824,268440592,536876048,805311504,268444688,536880144,805315600,268448784,536884240,805319696,268452880,536888336,805323792,268456976,536892432,805327888,268461072,536896528,805331984,268465168,536900624,805336080,268440848,536876304,805311760,268444944,536880400,805315856,268449040,536884496,805319952,268453136,536888592,805324048,268457232,536892688,805328144,268461328,536896784,805332240,268465424,536900880,805336336,268439840,536875296,805310752,268443936,536879392,805314848,268448032,536883488,805318944,268452128,536887584,805323040,268456224,536891680,805327136,268460320,536895776,805331232,268464416,536899872,805335328,268440096,536875552,805311008,268444192,536879648,805315104,268448288,536883744,805319200,268452384,536887840,805323296,268456480,536891936,805327392,268460576,536896032,805331488,268464672,536900128,805335584,268440352,536875808,805311264,268444448,536879904,805315360,268448544,536884000,805319456,268452640,536888096,805323552,268456736,536892192,805327648,268460832,536896288,805331744,268464928,536900384,805335840,268440608,536876064,805311520,268444704,536880160,805315616,268448800,536884256,805319712,268452896,536888352,805323808,268456992,536892448,805327904,268461088,536896544,805332000,268465184,536900640,805336096,268440864,536876320,805311776,268444960,536880416,805315872,268449056,536884512,805319968,268453152,536888608,805324064,268457248,536892704,805328160,268461344,536896800,805332256,268465440,536900896,805336352,268439856,536875312,805310768,268443952,536879408,805314864,268448048,536883504,805318960,268452144,536887600,805323056,268456240,536891696,805327152,268460336,536895792,805331248,268464432,536899888,805335344,268440112,536875568,805311024,268444208,536879664,805315120,268448304,536883760,805319216,268452400,536887856,805323312,268456496,536891952,805327408,268460592,536896048,805331504,268464688,536900144,805335600,268440368,536875824,805311280,268444464,536879920,805315376,268448560,536884016,805319472,268452656,536888112,805323568,268456752,536892208,805327664,268460848,536896304,805331760,268464944,536900400,805335856,268440624,536876080,805311536,268444720,536880176,805315632,268448816,536884272,805319728,268452912,536888368,805323824,268457008,536892464,805327920,268461104,536896560,805332016,268465200,536900656,805336112,268440880,536876336,805311792,268444976,536880432,805315888,268449072,536884528,805319984,268453168,536888624,805324080,268457264,536892720,805328176,268461360,536896816,805332272,268465456,536900912,805336368,268500992,536936448,805371904,268566528,537001984,805437440,268632064,537067520,805502976,268500993,536936449,805371905,268566529,537001985,805437441,268632065,537067521,805502977,268500994,536936450,805371906,268566530,537001986,805437442,268632066,537067522,805502978,268500995,536936451,805371907,268566531,537001987,805437443,268632067,537067523,805502979,268500996,536936452,805371908,268566532,537001988,805437444,268632068,537067524,805502980,268500997,536936453,805371909,268566533,537001989,805437445,268632069,537067525,805502981,268501008,536936464,805371920,268566544,537002000,805437456,268632080,537067536,805502992,268501024,536936480,805371936,268566560,537002016,805437472,268632096,537067552,805503008,268501040,536936496,805371952,268566576,537002032,805437488,268632112,537067568,805503024,268501009,536936465,805371921,268566545,537002001,805437457,268632081,537067537,805502993,268501025,536936481,805371937,268566561,537002017,805437473,268632097,537067553,805503009,268501041,536936497,805371953,268566577,537002033,805437489,268632113,537067569,805503025,268501057,536936513,805371969,268566593,537002049,805437505,268632129,537067585,805503041,268501073,536936529,805371985,268566609,537002065,805437521,268632145,537067601,805503057,268501089,536936545,805372001,268566625,537002081,805437537,268632161,537067617,805503073,268501105,536936561,805372017,268566641,537002097,805437553,268632177,537067633,805503089,268501010,536936466,805371922,268566546,537002002,805437458,268632082,537067538,805502994,268501026,536936482,805371938,268566562,537002018,805437474,268632098,537067554,805503010,268501042,536936498,805371954,268566578,537002034,805437490,268632114,537067570,805503026,268501058,536936514,805371970,268566594,537002050,805437506,268632130,537067586,805503042,268501074,536936530,805371986,268566610,537002066,805437522,268632146,537067602,805503058,268501090,536936546,805372002,268566626,537002082,805437538,268632162,537067618,805503074,268501106,536936562,805372018,268566642,537002098,805437554,268632178,537067634,805503090,268501011,536936467,805371923,268566547,537002003,805437459,268632083,537067539,805502995,268501027,536936483,805371939,268566563,537002019,805437475,268632099,537067555,805503011,268501043,536936499,805371955,268566579,537002035,805437491,268632115,537067571,805503027,268501059,536936515,805371971,268566595,537002051,805437507,268632131,537067587,805503043,268501075,536936531,805371987,268566611,537002067,805437523,268632147,537067603,805503059,268501091,536936547,805372003,268566627,537002083,805437539,268632163,537067619,805503075,268501107,536936563,805372019,268566643,537002099,805437555,268632179,537067635,805503091,268501012,536936468,805371924,268566548,537002004,805437460,268632084,537067540,805502996,268501028,536936484,805371940,268566564,537002020,805437476,268632100,537067556,805503012,268501044,536936500,805371956,268566580,537002036,805437492,268632116,537067572,805503028,268501060,536936516,805371972,268566596,537002052,805437508,268632132,537067588,805503044,268501076,536936532,805371988,268566612,537002068,805437524,268632148,537067604,805503060,268501092,536936548,805372004,268566628,537002084,805437540,268632164,537067620,805503076,268501108,536936564,805372020,268566644,537002100,805437556,268632180,537067636,805503092,268501013,536936469,805371925,268566549,537002005,805437461,268632085,537067541,805502997,268501029,536936485,805371941,268566565,537002021,805437477,268632101,537067557,805503013,268501045,536936501,805371957,268566581,537002037,805437493,268632117,537067573,805503029,268501061,536936517,805371973,268566597,537002053,805437509,268632133,537067589,805503045,268501077,536936533,805371989,268566613,537002069,805437525,268632149,537067605,805503061,268501093,536936549,805372005,268566629,537002085,805437541,268632165,537067621,805503077,268501109,536936565,805372021,268566645,537002101,805437557,268632181,537067637,805503093,268501248,536936704,805372160,268566784,537002240,805437696,268632320,537067776,805503232,268501504,536936960,805372416,268567040,537002496,805437952,268632576,537068032,805503488,268501760,536937216,805372672,268567296,537002752,805438208,268632832,537068288,805503744,268501249,536936705,805372161,268566785,537002241,805437697,268632321,537067777,805503233,268501505,536936961,805372417,268567041,537002497,805437953,268632577,537068033,805503489,268501761,536937217,805372673,268567297,537002753,805438209,268632833,537068289,805503745,268501250,536936706,805372162,268566786,537002242,805437698,268632322,537067778,805503234,268501506,536936962,805372418,268567042,537002498,805437954,268632578,537068034,805503490,268501762,536937218,805372674,268567298,537002754,805438210,268632834,537068290,805503746,268501251,536936707,805372163,268566787,537002243,805437699,268632323,537067779,805503235,268501507,536936963,805372419,268567043,537002499,805437955,268632579,537068035,805503491,268501763,536937219,805372675,268567299,537002755,805438211,268632835,537068291,805503747,268501252,536936708,805372164,268566788,537002244,805437700,268632324,537067780,805503236,268501508,536936964,805372420,268567044,537002500,805437956,268632580,537068036,805503492,268501764,536937220,805372676,268567300,537002756,805438212,268632836,537068292,805503748,268501253,536936709,805372165,268566789,537002245,805437701,268632325,537067781,805503237,268501509,536936965,805372421,268567045,537002501,805437957,268632581,537068037,805503493,268501765,536937221,805372677,268567301,537002757,805438213,268632837,537068293,805503749,268501264,536936720,805372176,268566800,537002256,805437712,268632336,537067792,805503248,268501520,536936976,805372432,268567056,537002512,805437968,268632592,537068048,805503504,268501776,536937232,805372688,268567312,537002768,805438224,268632848,537068304,805503760,268502032,536937488,805372944,268567568,537003024,805438480,268633104,537068560,805504016,268502288,536937744,805373200,268567824,537003280,805438736,268633360,537068816,805504272,268501280,536936736,805372192,268566816,537002272,805437728,268632352,537067808,805503264,268501536,536936992,805372448,268567072,537002528,805437984,268632608,537068064,805503520,268501792,536937248,805372704,268567328,537002784,805438240,268632864,537068320,805503776,268502048,536937504,805372960,268567584,537003040,805438496,268633120,537068576,805504032,268502304,536937760,805373216,268567840,537003296,805438752,268633376,537068832,805504288,268501296,536936752,805372208,268566832,537002288,805437744,268632368,537067824,805503280,268501552,536937008,805372464,268567088,537002544,805438000,268632624,537068080,805503536,268501808,536937264,805372720,268567344,537002800,805438256,268632880,537068336,805503792,268502064,536937520,805372976,268567600,537003056,805438512,268633136,537068592,805504048,268502320,536937776,805373232,268567856,537003312,805438768,268633392,537068848,805504304,268505088,536940544,805376000,268570624,537006080,805441536,268636160,537071616,805507072,268701696,537137152,805572608,268767232,537202688,805638144,268509184,536944640,805380096,268574720,537010176,805445632,268640256,537075712,805511168,268705792,537141248,805576704,268771328,537206784,805642240,268513280,536948736,805384192,268578816,537014272,805449728,268644352,537079808,805515264,268709888,537145344,805580800,268775424,537210880,805646336,268505089,536940545,805376001,268570625,537006081,805441537,268636161,537071617,805507073,268701697,537137153,805572609,268767233,537202689,805638145,268509185,536944641,805380097,268574721,537010177,805445633,268640257,537075713,805511169,268705793,537141249,805576705,268771329,537206785,805642241,268513281,536948737,805384193,268578817,537014273,805449729,268644353,537079809,805515265,268709889,537145345,805580801,268775425,537210881,805646337,268505090,536940546,805376002,268570626,537006082,805441538,268636162,537071618,805507074,268701698,537137154,805572610,268767234,537202690,805638146,268509186,536944642,805380098,268574722,537010178,805445634,268640258,537075714,805511170,268705794,537141250,805576706,268771330,537206786,805642242,268513282,536948738,805384194,268578818,537014274,805449730,268644354,537079810,805515266,268709890,537145346,805580802,268775426,537210882,805646338,268505091,536940547,805376003,268570627,537006083,805441539,268636163,537071619,805507075,268701699,537137155,805572611,268767235,537202691,805638147,268509187,536944643,805380099,268574723,537010179,805445635,268640259,537075715,805511171,268705795,537141251,805576707,268771331,537206787,805642243,268513283,536948739,805384195,268578819,537014275,805449731,268644355,537079811,805515267,268709891,537145347,805580803,268775427,537210883,805646339,268505092,536940548,805376004,268570628,537006084,805441540,268636164,537071620,805507076,268701700,537137156,805572612,268767236,537202692,805638148,268509188,536944644,805380100,268574724,537010180,805445636,268640260,537075716,805511172,268705796,537141252,805576708,268771332,537206788,805642244,268513284,536948740,805384196,268578820,537014276,805449732,268644356,537079812,805515268,268709892,537145348,805580804,268775428,537210884,805646340,268505093,536940549,805376005,268570629,537006085,805441541,268636165,537071621,805507077,268701701,537137157,805572613,268767237,537202693,805638149,268509189,536944645,805380101,268574725,537010181,805445637,268640261,537075717,805511173,268705797,537141253,805576709,268771333,537206789,805642245,268513285,536948741,805384197,268578821,537014277,805449733,268644357,537079813,805515269,268709893,537145349,805580805,268775429,537210885,805646341,268505104,536940560,805376016,268570640,537006096,805441552,268636176,537071632,805507088,268701712,537137168,805572624,268767248,537202704,805638160,268509200,536944656,805380112,268574736,537010192,805445648,268640272,537075728,805511184,268705808,537141264,805576720,268771344,537206800,805642256,268513296,536948752,805384208,268578832,537014288,805449744,268644368,537079824,805515280,268709904,537145360,805580816,268775440,537210896,805646352,268505120,536940576,805376032,268570656,537006112,805441568,268636192,537071648,805507104,268701728,537137184,805572640,268767264,537202720,805638176,268509216,536944672,805380128,268574752,537010208,805445664,268640288,537075744,805511200,268705824,537141280,805576736,268771360,537206816,805642272,268513312,536948768,805384224,268578848,537014304,805449760,268644384,537079840,805515296,268709920,537145376,805580832,268775456,537210912,805646368,268505136,536940592,805376048,268570672,537006128,805441584,268636208,537071664,805507120,268701744,537137200,805572656,268767280,537202736,805638192,268509232,536944688,805380144,268574768,537010224,805445680,268640304,537075760,805511216,268705840,537141296,805576752,268771376,537206832,805642288,268513328,536948784,805384240,268578864,537014320,805449776,268644400,537079856,805515312,268709936,537145392,805580848,268775472,537210928,805646384,268505344,536940800,805376256,268570880,537006336,805441792,268636416,537071872,805507328,268701952,537137408,805572864,268767488,537202944,805638400,268833024,537268480,805703936,268898560,537334016,805769472,268509440,536944896,805380352,268574976,537010432,805445888,268640512,537075968,805511424,268706048,537141504,805576960,268771584,537207040,805642496,268837120,537272576,805708032,268902656,537338112,805773568,268513536,536948992,805384448,268579072,537014528,805449984,268644608,537080064,805515520,268710144,537145600,805581056,268775680,537211136,805646592,268841216,537276672,805712128,268906752,537342208,805777664,268517632,536953088,805388544,268583168,537018624,805454080,268648704,537084160,805519616,268714240,537149696,805585152,268779776,537215232,805650688,268845312,537280768,805716224,268910848,537346304,805781760,268521728,536957184,805392640,268587264,537022720,805458176,268652800,537088256,805523712,268718336,537153792,805589248,268783872,537219328,805654784,268849408,537284864,805720320,268914944,537350400,805785856,268505600,536941056,805376512,268571136,537006592,805442048,268636672,537072128,805507584,268702208,537137664,805573120,268767744,537203200,805638656,268833280,537268736,805704192,268898816,537334272,805769728,268509696,536945152,805380608,268575232,537010688,805446144,268640768,537076224,805511680,268706304,537141760,805577216,268771840,537207296,805642752,268837376,537272832,805708288,268902912,537338368,805773824,268513792,536949248,805384704,268579328,537014784,805450240,268644864,537080320,805515776,268710400,537145856,805581312,268775936,537211392,805646848,268841472,537276928,805712384,268907008,537342464,805777920,268517888,536953344,805388800,268583424,537018880,805454336,268648960,537084416,805519872,268714496,537149952,805585408,268780032,537215488,805650944,268845568,537281024,805716480,268911104,537346560,805782016,268521984,536957440,805392896,268587520,537022976,805458432,268653056,537088512,805523968,268718592,537154048,805589504,268784128,537219584,805655040,268849664,537285120,805720576,268915200,537350656,805786112,268505856,536941312,805376768,268571392,537006848,805442304,268636928,537072384,805507840,268702464,537137920,805573376,268768000,537203456,805638912,268833536,537268992,805704448,268899072,537334528,805769984,268509952,536945408,805380864,268575488,537010944,805446400,268641024,537076480,805511936,268706560,537142016,805577472,268772096,537207552,805643008,268837632,537273088,805708544,268903168,537338624,805774080,268514048,536949504,805384960,268579584,537015040,805450496,268645120,537080576,805516032,268710656,537146112,805581568,268776192,537211648,805647104,268841728,537277184,805712640,268907264,537342720,805778176,268518144,536953600,805389056,268583680,537019136,805454592,268649216,537084672,805520128,268714752,537150208,805585664,268780288,537215744,805651200,268845824,537281280,805716736,268911360,537346816,805782272,268522240,536957696,805393152,268587776,537023232,805458688,268653312,537088768,805524224,268718848,537154304,805589760,268784384,537219840,805655296,268849920,537285376,805720832,268915456,537350912,805786368,269484032,537919488,806354944,270532608,538968064,807403520,271581184,540016640,808452096,269484033,537919489,806354945,270532609,538968065,807403521,271581185,540016641,808452097,269484034,537919490,806354946,270532610,538968066,807403522,271581186,540016642,808452098,269484035,537919491,806354947,270532611,538968067,807403523,271581187,540016643,808452099,269484036,537919492,806354948,270532612,538968068,807403524,271581188,540016644,808452100,269484037,537919493,806354949,270532613,538968069,807403525,271581189,540016645,808452101,269484048,537919504,806354960,270532624,538968080,807403536,271581200,540016656,808452112,269484064,537919520,806354976,270532640,538968096,807403552,271581216,540016672,808452128,269484080,537919536,806354992,270532656,538968112,807403568,271581232,540016688,808452144,269484049,537919505,806354961,270532625,538968081,807403537,271581201,540016657,808452113,269484065,537919521,806354977,270532641,538968097,807403553,271581217,540016673,808452129,269484081,537919537,806354993,270532657,538968113,807403569,271581233,540016689,808452145,269484097,537919553,806355009,270532673,538968129,807403585,271581249,540016705,808452161,269484113,537919569,806355025,270532689,538968145,807403601,271581265,540016721,808452177,269484129,537919585,806355041,270532705,538968161,807403617,271581281,540016737,808452193,269484145,537919601,806355057,270532721,538968177,807403633,271581297,540016753,808452209,269484050,537919506,806354962,270532626,538968082,807403538,271581202,540016658,808452114,269484066,537919522,806354978,270532642,538968098,807403554,271581218,540016674,808452130,269484082,537919538,806354994,270532658,538968114,807403570,271581234,540016690,808452146,269484098,537919554,806355010,270532674,538968130,807403586,271581250,540016706,808452162,269484114,537919570,806355026,270532690,538968146,807403602,271581266,540016722,808452178,269484130,537919586,806355042,270532706,538968162,807403618,271581282,540016738,808452194,269484146,537919602,806355058,270532722,538968178,807403634,271581298,540016754,808452210,269484051,537919507,806354963,270532627,538968083,807403539,271581203,540016659,808452115,269484067,537919523,806354979,270532643,538968099,807403555,271581219,540016675,808452131,269484083,537919539,806354995,270532659,538968115,807403571,271581235,540016691,808452147,269484099,537919555,806355011,270532675,538968131,807403587,271581251,540016707,808452163,269484115,537919571,806355027,270532691,538968147,807403603,271581267,540016723,808452179,269484131,537919587,806355043,270532707,538968163,807403619,271581283,540016739,808452195,269484147,537919603,806355059,270532723,538968179,807403635,271581299,540016755,808452211,269484052,537919508,806354964,270532628,538968084,807403540,271581204,540016660,808452116,269484068,537919524,806354980,270532644,538968100,807403556,271581220,540016676,808452132,269484084,537919540,806354996,270532660,538968116,807403572,271581236,540016692,808452148,269484100,537919556,806355012,270532676,538968132,807403588,271581252,540016708,808452164,269484116,537919572,806355028,270532692,538968148,807403604,271581268,540016724,808452180,269484132,537919588,806355044,270532708,538968164,807403620,271581284,540016740,808452196,269484148,537919604,806355060,270532724,538968180,807403636,271581300,540016756,808452212,269484053,537919509,806354965,270532629,538968085,807403541,271581205,540016661,808452117,269484069,537919525,806354981,270532645,538968101,807403557,271581221,540016677,808452133,269484085,537919541,806354997,270532661,538968117,807403573,271581237,540016693,808452149,269484101,537919557,806355013,270532677,538968133,807403589,271581253,540016709,808452165,269484117,537919573,806355029,270532693,538968149,807403605,271581269,540016725,808452181,269484133,537919589,806355045,270532709,538968165,807403621,271581285,540016741,808452197,269484149,537919605,806355061,270532725,538968181,807403637,271581301,540016757,808452213,269484288,537919744,806355200,270532864,538968320,807403776,271581440,540016896,808452352,269484544,537920000,806355456,270533120,538968576,807404032,271581696,540017152,808452608,269484800,537920256,806355712,270533376,538968832,807404288,271581952,540017408,808452864,269484289,537919745,806355201,270532865,538968321,807403777,271581441,540016897,808452353,269484545,537920001,806355457,270533121,538968577,807404033,271581697,540017153,808452609,269484801,537920257,806355713,270533377,538968833,807404289,271581953,540017409,808452865,269484290,537919746,806355202,270532866,538968322,807403778,271581442,540016898,808452354,269484546,537920002,806355458,270533122,538968578,807404034,271581698,540017154,808452610,269484802,537920258,806355714,270533378,538968834,807404290,271581954,540017410,808452866,269484291,537919747,806355203,270532867,538968323,807403779,271581443,540016899,808452355,269484547,537920003,806355459,270533123,538968579,807404035,271581699,540017155,808452611,269484803,537920259,806355715,270533379,538968835,807404291,271581955,540017411,808452867,269484292,537919748,806355204,270532868,538968324,807403780,271581444,540016900,808452356,269484548,537920004,806355460,270533124,538968580,807404036,271581700,540017156,808452612,269484804,537920260,806355716,270533380,538968836,807404292,271581956,540017412,808452868,269484293,537919749,806355205,270532869,538968325,807403781,271581445,540016901,808452357,269484549,537920005,806355461,270533125,538968581,807404037,271581701,540017157,808452613,269484805,537920261,806355717,270533381,538968837,807404293,271581957,540017413,808452869,269484304,537919760,806355216,270532880,538968336,807403792,271581456,540016912,808452368,269484560,537920016,806355472,270533136,538968592,807404048,271581712,540017168,808452624,269484816,537920272,806355728,270533392,538968848,807404304,271581968,540017424,808452880,269485072,537920528,806355984,270533648,538969104,807404560,271582224,540017680,808453136,269485328,537920784,806356240,270533904,538969360,807404816,271582480,540017936,808453392,269484320,537919776,806355232,270532896,538968352,807403808,271581472,540016928,808452384,269484576,537920032,806355488,270533152,538968608,807404064,271581728,540017184,808452640,269484832,537920288,806355744,270533408,538968864,807404320,271581984,540017440,808452896,269485088,537920544,806356000,270533664,538969120,807404576,271582240,540017696,808453152,269485344,537920800,806356256,270533920,538969376,807404832,271582496,540017952,808453408,269484336,537919792,806355248,270532912,538968368,807403824,271581488,540016944,808452400,269484592,537920048,806355504,270533168,538968624,807404080,271581744,540017200,808452656,269484848,537920304,806355760,270533424,538968880,807404336,271582000,540017456,808452912,269485104,537920560,806356016,270533680,538969136,807404592,271582256,540017712,808453168,269485360,537920816,806356272,270533936,538969392,807404848,271582512,540017968,808453424,269488128,537923584,806359040,270536704,538972160,807407616,271585280,540020736,808456192,269492224,537927680,806363136,270540800,538976256,807411712,271589376,540024832,808460288,269496320,537931776,806367232,270544896,538980352,807415808,271593472,540028928,808464384,269488129,537923585,806359041,270536705,538972161,807407617,271585281,540020737,808456193,269492225,537927681,806363137,270540801,538976257,807411713,271589377,540024833,808460289,269496321,537931777,806367233,270544897,538980353,807415809,271593473,540028929,808464385,269488130,537923586,806359042,270536706,538972162,807407618,271585282,540020738,808456194,269492226,537927682,806363138,270540802,538976258,807411714,271589378,540024834,808460290,269496322,537931778,806367234,270544898,538980354,807415810,271593474,540028930,808464386,269488131,537923587,806359043,270536707,538972163,807407619,271585283,540020739,808456195,269492227,537927683,806363139,270540803,538976259,807411715,271589379,540024835,808460291,269496323,537931779,806367235,270544899,538980355,807415811,271593475,540028931,808464387,269488132,537923588,806359044,270536708,538972164,807407620,271585284,540020740,808456196,269492228,537927684,806363140,270540804,538976260,807411716,271589380,540024836,808460292,269496324,537931780,806367236,270544900,538980356,807415812,271593476,540028932,808464388,269488133,537923589,806359045,270536709,538972165,807407621,271585285,540020741,808456197,269492229,537927685,806363141,270540805,538976261,807411717,271589381,540024837,808460293,269496325,537931781,806367237,270544901,538980357,807415813,271593477,540028933,808464389,269488144,537923600,806359056,270536720,538972176,807407632,271585296,540020752,808456208,269492240,537927696,806363152,270540816,538976272,807411728,271589392,540024848,808460304,269496336,537931792,806367248,270544912,538980368,807415824,271593488,540028944,808464400,269488160,537923616,806359072,270536736,538972192,807407648,271585312,540020768,808456224,269492256,537927712,806363168,270540832,538976288,807411744,271589408,540024864,808460320,269496352,537931808,806367264,270544928,538980384,807415840,271593504,540028960,808464416,269488176,537923632,806359088,270536752,538972208,807407664,271585328,540020784,808456240,269492272,537927728,806363184,270540848,538976304,807411760,271589424,540024880,808460336,269496368,537931824,806367280,270544944,538980400,807415856,271593520,540028976,808464432,269488384,537923840,806359296,270536960,538972416,807407872,271585536,540020992,808456448,269492480,537927936,806363392,270541056,538976512,807411968,271589632,540025088,808460544,269496576,537932032,806367488,270545152,538980608,807416064,271593728,540029184,808464640,269500672,537936128,806371584,270549248,538984704,807420160,271597824,540033280,808468736,269504768,537940224,806375680,270553344,538988800,807424256,271601920,540037376,808472832,269488640,537924096,806359552,270537216,538972672,807408128,271585792,540021248,808456704,269492736,537928192,806363648,270541312,538976768,807412224,271589888,540025344,808460800,269496832,537932288,806367744,270545408,538980864,807416320,271593984,540029440,808464896,269500928,537936384,806371840,270549504,538984960,807420416,271598080,540033536,808468992,269505024,537940480,806375936,270553600,538989056,807424512,271602176,540037632,808473088,269488896,537924352,806359808,270537472,538972928,807408384,271586048,540021504,808456960,269492992,537928448,806363904,270541568,538977024,807412480,271590144,540025600,808461056,269497088,537932544,806368000,270545664,538981120,807416576,271594240,540029696,808465152,269501184,537936640,806372096,270549760,538985216,807420672,271598336,540033792,808469248,269505280,537940736,806376192,270553856,538989312,807424768,271602432,540037888,808473344,269549568,537985024,806420480,270598144,539033600,807469056,271646720,540082176,808517632,272695296,541130752,809566208,273743872,542179328,810614784,269615104,538050560,806486016,270663680,539099136,807534592,271712256,540147712,808583168,272760832,541196288,809631744,273809408,542244864,810680320,269680640,538116096,806551552,270729216,539164672,807600128,271777792,540213248,808648704,272826368,541261824,809697280,273874944,542310400,810745856,269549569,537985025,806420481,270598145,539033601,807469057,271646721,540082177,808517633,272695297,541130753,809566209,273743873,542179329,810614785,269615105,538050561,806486017,270663681,539099137,807534593,271712257,540147713,808583169,272760833,541196289,809631745,273809409,542244865,810680321,269680641,538116097,806551553,270729217,539164673,807600129,271777793,540213249,808648705,272826369,541261825,809697281,273874945,542310401,810745857,269549570,537985026,806420482,270598146,539033602,807469058,271646722,540082178,808517634,272695298,541130754,809566210,273743874,542179330,810614786,269615106,538050562,806486018,270663682,539099138,807534594,271712258,540147714,808583170,272760834,541196290,809631746,273809410,542244866,810680322,269680642,538116098,806551554,270729218,539164674,807600130,271777794,540213250,808648706,272826370,541261826,809697282,273874946,542310402,810745858,269549571,537985027,806420483,270598147,539033603,807469059,271646723,540082179,808517635,272695299,541130755,809566211,273743875,542179331,810614787,269615107,538050563,806486019,270663683,539099139,807534595,271712259,540147715,808583171,272760835,541196291,809631747,273809411,542244867,810680323,269680643,538116099,806551555,270729219,539164675,807600131,271777795,540213251,808648707,272826371,541261827,809697283,273874947,542310403,810745859,269549572,537985028,806420484,270598148,539033604,807469060,271646724,540082180,808517636,272695300,541130756,809566212,273743876,542179332,810614788,269615108,538050564,806486020,270663684,539099140,807534596,271712260,540147716,808583172,272760836,541196292,809631748,273809412,542244868,810680324,269680644,538116100,806551556,270729220,539164676,807600132,271777796,540213252,808648708,272826372,541261828,809697284,273874948,542310404,810745860,269549573,537985029,806420485,270598149,539033605,807469061,271646725,540082181,808517637,272695301,541130757,809566213,273743877,542179333,810614789,269615109,538050565,806486021,270663685,539099141,807534597,271712261,540147717,808583173,272760837,541196293,809631749,273809413,542244869,810680325,269680645,538116101,806551557,270729221,539164677,807600133,271777797,540213253,808648709,272826373,541261829,809697285,273874949,542310405,810745861,269549584,537985040,806420496,270598160,539033616,807469072,271646736,540082192,808517648,272695312,541130768,809566224,273743888,542179344,810614800,269615120,538050576,806486032,270663696,539099152,807534608,271712272,540147728,808583184,272760848,541196304,809631760,273809424,542244880,810680336,269680656,538116112,806551568,270729232,539164688,807600144,271777808,540213264,808648720,272826384,541261840,809697296,273874960,542310416,810745872,269549600,537985056,806420512,270598176,539033632,807469088,271646752,540082208,808517664,272695328,541130784,809566240,273743904,542179360,810614816,269615136,538050592,806486048,270663712,539099168,807534624,271712288,540147744,808583200,272760864,541196320,809631776,273809440,542244896,810680352,269680672,538116128,806551584,270729248,539164704,807600160,271777824,540213280,808648736,272826400,541261856,809697312,273874976,542310432,810745888,269549616,537985072,806420528,270598192,539033648,807469104,271646768,540082224,808517680,272695344,541130800,809566256,273743920,542179376,810614832,269615152,538050608,806486064,270663728,539099184,807534640,271712304,540147760,808583216,272760880,541196336,809631792,273809456,542244912,810680368,269680688,538116144,806551600,270729264,539164720,807600176,271777840,540213296,808648752,272826416,541261872,809697328,273874992,542310448,810745904,269549824,537985280,806420736,270598400,539033856,807469312,271646976,540082432,808517888,272695552,541131008,809566464,273744128,542179584,810615040,269615360,538050816,806486272,270663936,539099392,807534848,271712512,540147968,808583424,272761088,541196544,809632000,273809664,542245120,810680576,269680896,538116352,806551808,270729472,539164928,807600384,271778048,540213504,808648960,272826624,541262080,809697536,273875200,542310656,810746112,269550080,537985536,806420992,270598656,539034112,807469568,271647232,540082688,808518144,272695808,541131264,809566720,273744384,542179840,810615296,269615616,538051072,806486528,270664192,539099648,807535104,271712768,540148224,808583680,272761344,541196800,809632256,273809920,542245376,810680832,269681152,538116608,806552064,270729728,539165184,807600640,271778304,540213760,808649216,272826880,541262336,809697792,273875456,542310912,810746368,269550336,537985792,806421248,270598912,539034368,807469824,271647488,540082944,808518400,272696064,541131520,809566976,273744640,542180096,810615552,269615872,538051328,806486784,270664448,539099904,807535360,271713024,540148480,808583936,272761600,541197056,809632512,273810176,542245632,810681088,269681408,538116864,806552320,270729984,539165440,807600896,271778560,540214016,808649472,272827136,541262592,809698048,273875712,542311168,810746624,269553664,537989120,806424576,270602240,539037696,807473152,271650816,540086272,808521728,272699392,541134848,809570304,273747968,542183424,810618880,274796544,543232000,811667456,275845120,544280576,812716032,269619200,538054656,806490112,270667776,539103232,807538688,271716352,540151808,808587264,272764928,541200384,809635840,273813504,542248960,810684416,274862080,543297536,811732992,275910656,544346112,812781568,269684736,538120192,806555648,270733312,539168768,807604224,271781888,540217344,808652800,272830464,541265920,809701376,273879040,542314496,810749952,274927616,543363072,811798528,275976192,544411648,812847104,269750272,538185728,806621184,270798848,539234304,807669760,271847424,540282880,808718336,272896000,541331456,809766912,273944576,542380032,810815488,274993152,543428608,811864064,276041728,544477184,812912640,269815808,538251264,806686720,270864384,539299840,807735296,271912960,540348416,808783872,272961536,541396992,809832448,274010112,542445568,810881024,275058688,543494144,811929600,276107264,544542720,812978176,269557760,537993216,806428672,270606336,539041792,807477248,271654912,540090368,808525824,272703488,541138944,809574400,273752064,542187520,810622976,274800640,543236096,811671552,275849216,544284672,812720128,269623296,538058752,806494208,270671872,539107328,807542784,271720448,540155904,808591360,272769024,541204480,809639936,273817600,542253056,810688512,274866176,543301632,811737088,275914752,544350208,812785664,269688832,538124288,806559744,270737408,539172864,807608320,271785984,540221440,808656896,272834560,541270016,809705472,273883136,542318592,810754048,274931712,543367168,811802624,275980288,544415744,812851200,269754368,538189824,806625280,270802944,539238400,807673856,271851520,540286976,808722432,272900096,541335552,809771008,273948672,542384128,810819584,274997248,543432704,811868160,276045824,544481280,812916736,269819904,538255360,806690816,270868480,539303936,807739392,271917056,540352512,808787968,272965632,541401088,809836544,274014208,542449664,810885120,275062784,543498240,811933696,276111360,544546816,812982272,269561856,537997312,806432768,270610432,539045888,807481344,271659008,540094464,808529920,272707584,541143040,809578496,273756160,542191616,810627072,274804736,543240192,811675648,275853312,544288768,812724224,269627392,538062848,806498304,270675968,539111424,807546880,271724544,540160000,808595456,272773120,541208576,809644032,273821696,542257152,810692608,274870272,543305728,811741184,275918848,544354304,812789760,269692928,538128384,806563840,270741504,539176960,807612416,271790080,540225536,808660992,272838656,541274112,809709568,273887232,542322688,810758144,274935808,543371264,811806720,275984384,544419840,812855296,269758464,538193920,806629376,270807040,539242496,807677952,271855616,540291072,808726528,272904192,541339648,809775104,273952768,542388224,810823680,275001344,543436800,811872256,276049920,544485376,812920832,269824000,538259456,806694912,270872576,539308032,807743488,271921152,540356608,808792064,272969728,541405184,809840640,274018304,542453760,810889216,275066880,543502336,811937792,276115456,544550912,812986368,285212672,553648128,822083584,1090519040,1358954496,301989888,570425344,838860800,1107296256,1375731712,318767104,587202560,855638016,1124073472,1392508928,285212673,553648129,822083585,1090519041,1358954497,301989889,570425345,838860801,1107296257,1375731713,318767105,587202561,855638017,1124073473,1392508929,285212674,553648130,822083586,1090519042,1358954498,301989890,570425346,838860802,1107296258,1375731714,318767106,587202562,855638018,1124073474,1392508930,285212675,553648131,822083587,1090519043,1358954499,301989891,570425347,838860803,1107296259,1375731715,318767107,587202563,855638019,1124073475,1392508931,285212676,553648132,822083588,1090519044,1358954500,301989892,570425348,838860804,1107296260,1375731716,318767108,587202564,855638020,1124073476,1392508932,285212677,553648133,822083589,1090519045,1358954501,301989893,570425349,838860805,1107296261,1375731717,318767109,587202565,855638021,1124073477,1392508933,285212678,553648134,822083590,1090519046,1358954502,301989894,570425350,838860806,1107296262,1375731718,318767110,587202566,855638022,1124073478,1392508934,285212679,553648135,822083591,1090519047,1358954503,301989895,570425351,838860807,1107296263,1375731719,318767111,587202567,855638023,1124073479,1392508935,285212688,553648144,822083600,1090519056,1358954512,301989904,570425360,838860816,1107296272,1375731728,318767120,587202576,855638032,1124073488,1392508944,285212704,553648160,822083616,1090519072,1358954528,301989920,570425376,838860832,1107296288,1375731744,318767136,587202592,855638048,1124073504,1392508960,285212720,553648176,822083632,1090519088,1358954544,301989936,570425392,838860848,1107296304,1375731760,318767152,587202608,855638064,1124073520,1392508976,285212689,553648145,822083601,1090519057,1358954513,301989905,570425361,838860817,1107296273,1375731729,318767121,587202577,855638033,1124073489,1392508945,285212705,553648161,822083617,1090519073,1358954529,301989921,570425377,838860833,1107296289,1375731745,318767137,587202593,855638049,1124073505,1392508961,285212721,553648177,822083633,1090519089,1358954545,301989937,570425393,838860849,1107296305,1375731761,318767153,587202609,855638065,1124073521,1392508977,285212737,553648193,822083649,1090519105,1358954561,301989953,570425409,838860865,1107296321,1375731777,318767169,587202625,855638081,1124073537,1392508993,285212753,553648209,822083665,1090519121,1358954577,301989969,570425425,838860881,1107296337,1375731793,318767185,587202641,855638097,1124073553,1392509009,285212769,553648225,822083681,1090519137,1358954593,301989985,570425441,838860897,1107296353,1375731809,318767201,587202657,855638113,1124073569,1392509025,285212785,553648241,822083697,1090519153,1358954609,301990001,570425457,838860913,1107296369,1375731825,318767217,587202673,855638129,1124073585,1392509041,285212801,553648257,822083713,1090519169,1358954625,301990017,570425473,838860929,1107296385,1375731841,318767233,587202689,855638145,1124073601,1392509057,285212817,553648273,822083729,1090519185,1358954641,301990033,570425489,838860945,1107296401,1375731857,318767249,587202705,855638161,1124073617,1392509073,285212690,553648146,822083602,1090519058,1358954514,301989906,570425362,838860818,1107296274,1375731730,318767122,587202578,855638034,1124073490,1392508946,285212706,553648162,822083618,1090519074,1358954530,301989922,570425378,838860834,1107296290,1375731746,318767138,587202594,855638050,1124073506,1392508962,285212722,553648178,822083634,1090519090,1358954546,301989938,570425394,838860850,1107296306,1375731762,318767154,587202610,855638066,1124073522,1392508978,285212738,553648194,822083650,1090519106,1358954562,301989954,570425410,838860866,1107296322,1375731778,318767170,587202626,855638082,1124073538,1392508994,285212754,553648210,822083666,1090519122,1358954578,301989970,570425426,838860882,1107296338,1375731794,318767186,587202642,855638098,1124073554,1392509010,285212770,553648226,822083682,1090519138,1358954594,301989986,570425442,838860898,1107296354,1375731810,318767202,587202658,855638114,1124073570,1392509026,285212786,553648242,822083698,1090519154,1358954610,301990002,570425458,838860914,1107296370,1375731826,318767218,587202674,855638130,1124073586,1392509042,285212802,553648258,822083714,1090519170,1358954626,301990018,570425474,838860930,1107296386,1375731842,318767234,587202690,855638146,1124073602,1392509058,285212818,553648274,822083730,1090519186,1358954642,301990034,570425490,838860946,1107296402,1375731858,318767250,587202706,855638162,1124073618,1392509074,285212691,553648147,822083603,1090519059,1358954515,301989907,570425363,838860819,1107296275,1375731731,318767123,587202579,855638035,1124073491,1392508947,285212707,553648163,822083619,1090519075,1358954531,301989923,570425379,838860835,1107296291,1375731747,318767139,587202595,855638051,1124073507,1392508963,285212723,553648179,822083635,1090519091,1358954547,301989939,570425395,838860851,1107296307,1375731763,318767155,587202611,855638067,1124073523,1392508979,285212739,553648195,822083651,1090519107,1358954563,301989955,570425411,838860867,1107296323,1375731779,318767171,587202627,855638083,1124073539,1392508995,285212755,553648211,822083667,1090519123,1358954579,301989971,570425427,838860883,1107296339,1375731795,318767187,587202643,855638099,1124073555,1392509011,285212771,553648227,822083683,1090519139,1358954595,301989987,570425443,838860899,1107296355,1375731811,318767203,587202659,855638115,1124073571,1392509027,285212787,553648243,822083699,1090519155,1358954611,301990003,570425459,838860915,1107296371,1375731827,318767219,587202675,855638131,1124073587,1392509043,285212803,553648259,822083715,1090519171,1358954627,301990019,570425475,838860931,1107296387,1375731843,318767235,587202691,855638147,1124073603,1392509059,285212819,553648275,822083731,1090519187,1358954643,301990035,570425491,838860947,1107296403,1375731859,318767251,587202707,855638163,1124073619,1392509075,285212692,553648148,822083604,1090519060,1358954516,301989908,570425364,838860820,1107296276,1375731732,318767124,587202580,855638036,1124073492,1392508948,285212708,553648164,822083620,1090519076,1358954532,301989924,570425380,838860836,1107296292,1375731748,318767140,587202596,855638052,1124073508,1392508964,285212724,553648180,822083636,1090519092,1358954548,301989940,570425396,838860852,1107296308,1375731764,318767156,587202612,855638068,1124073524,1392508980,285212740,553648196,822083652,1090519108,1358954564,301989956,570425412,838860868,1107296324,1375731780,318767172,587202628,855638084,1124073540,1392508996,285212756,553648212,822083668,1090519124,1358954580,301989972,570425428,838860884,1107296340,1375731796,318767188,587202644,855638100,1124073556,1392509012,285212772,553648228,822083684,1090519140,1358954596,301989988,570425444,838860900,1107296356,1375731812,318767204,587202660,855638116,1124073572,1392509028,285212788,553648244,822083700,1090519156,1358954612,301990004,570425460,838860916,1107296372,1375731828,318767220,587202676,855638132,1124073588,1392509044,285212804,553648260,822083716,1090519172,1358954628,301990020,570425476,838860932,1107296388,1375731844,318767236,587202692,855638148,1124073604,1392509060,285212820,553648276,822083732,1090519188,1358954644,301990036,570425492,838860948,1107296404,1375731860,318767252,587202708,855638164,1124073620,1392509076,285212693,553648149,822083605,1090519061,1358954517,301989909,570425365,838860821,1107296277,1375731733,318767125,587202581,855638037,1124073493,1392508949,285212709,553648165,822083621,1090519077,1358954533,301989925,570425381,838860837,1107296293,1375731749,318767141,587202597,855638053,1124073509,1392508965,285212725,553648181,822083637,1090519093,1358954549,301989941,570425397,838860853,1107296309,1375731765,318767157,587202613,855638069,1124073525,1392508981,285212741,553648197,822083653,1090519109,1358954565,301989957,570425413,838860869,1107296325,1375731781,318767173,587202629,855638085,1124073541,1392508997,285212757,553648213,822083669,1090519125,1358954581,301989973,570425429,838860885,1107296341,1375731797,318767189,587202645,855638101,1124073557,1392509013,285212773,553648229,822083685,1090519141,1358954597,301989989,570425445,838860901,1107296357,1375731813,318767205,587202661,855638117,1124073573,1392509029,285212789,553648245,822083701,1090519157,1358954613,301990005,570425461,838860917,1107296373,1375731829,318767221,587202677,855638133,1124073589,1392509045,285212805,553648261,822083717,1090519173,1358954629,301990021,570425477,838860933,1107296389,1375731845,318767237,587202693,855638149,1124073605,1392509061,285212821,553648277,822083733,1090519189,1358954645,301990037,570425493,838860949,1107296405,1375731861,318767253,587202709,855638165,1124073621,1392509077,285212694,553648150,822083606,1090519062,1358954518,301989910,570425366,838860822,1107296278,1375731734,318767126,587202582,855638038,1124073494,1392508950,285212710,553648166,822083622,1090519078,1358954534,301989926,570425382,838860838,1107296294,1375731750,318767142,587202598,855638054,1124073510,1392508966,285212726,553648182,822083638,1090519094,1358954550,301989942,570425398,838860854,1107296310,1375731766,318767158,587202614,855638070,1124073526,1392508982,285212742,553648198,822083654,1090519110,1358954566,301989958,570425414,838860870,1107296326,1375731782,318767174,587202630,855638086,1124073542,1392508998,285212758,553648214,822083670,1090519126,1358954582,301989974,570425430,838860886,1107296342,1375731798,318767190,587202646,855638102,1124073558,1392509014,285212774,553648230,822083686,1090519142,1358954598,301989990,570425446,838860902,1107296358,1375731814,318767206,587202662,855638118,1124073574,1392509030,285212790,553648246,822083702,1090519158,1358954614,301990006,570425462,838860918,1107296374,1375731830,318767222,587202678,855638134,1124073590,1392509046,285212806,553648262,822083718,1090519174,1358954630,301990022,570425478,838860934,1107296390,1375731846,318767238,587202694,855638150,1124073606,1392509062,285212822,553648278,822083734,1090519190,1358954646,301990038,570425494,838860950,1107296406,1375731862,318767254,587202710,855638166,1124073622,1392509078,285212695,553648151,822083607,1090519063,1358954519,301989911,570425367,838860823,1107296279,1375731735,318767127,587202583,855638039,1124073495,1392508951,285212711,553648167,822083623,1090519079,1358954535,301989927,570425383,838860839,1107296295,1375731751,318767143,587202599,855638055,1124073511,1392508967,285212727,553648183,822083639,1090519095,1358954551,301989943,570425399,838860855,1107296311,1375731767,318767159,587202615,855638071,1124073527,1392508983,285212743,553648199,822083655,1090519111,1358954567,301989959,570425415,838860871,1107296327,1375731783,318767175,587202631,855638087,1124073543,1392508999,285212759,553648215,822083671,1090519127,1358954583,301989975,570425431,838860887,1107296343,1375731799,318767191,587202647,855638103,1124073559,1392509015,285212775,553648231,822083687,1090519143,1358954599,301989991,570425447,838860903,1107296359,1375731815,318767207,587202663,855638119,1124073575,1392509031,285212791,553648247,822083703,1090519159,1358954615,301990007,570425463,838860919,1107296375,1375731831,318767223,587202679,855638135,1124073591,1392509047,285212807,553648263,822083719,1090519175,1358954631,301990023,570425479,838860935,1107296391,1375731847,318767239,587202695,855638151,1124073607,1392509063,285212823,553648279,822083735,1090519191,1358954647,301990039,570425495,838860951,1107296407,1375731863,318767255,587202711,855638167,1124073623,1392509079,285212928,553648384,822083840,1090519296,1358954752,301990144,570425600,838861056,1107296512,1375731968,318767360,587202816,855638272,1124073728,1392509184,285213184,553648640,822084096,1090519552,1358955008,301990400,570425856,838861312,1107296768,1375732224,318767616,587203072,855638528,1124073984,1392509440,285213440,553648896,822084352,1090519808,1358955264,301990656,570426112,838861568,1107297024,1375732480,318767872,587203328,855638784,1124074240,1392509696,285212929,553648385,822083841,1090519297,1358954753,301990145,570425601,838861057,1107296513,1375731969,318767361,587202817,855638273,1124073729,1392509185,285213185,553648641,822084097,1090519553,1358955009,301990401,570425857,838861313,1107296769,1375732225,318767617,587203073,855638529,1124073985,1392509441,285213441,553648897,822084353,1090519809,1358955265,301990657,570426113,838861569,1107297025,1375732481,318767873,587203329,855638785,1124074241,1392509697,285212930,553648386,822083842,1090519298,1358954754,301990146,570425602,838861058,1107296514,1375731970,318767362,587202818,855638274,1124073730,1392509186,285213186,553648642,822084098,1090519554,1358955010,301990402,570425858,838861314,1107296770,1375732226,318767618,587203074,855638530,1124073986,1392509442,285213442,553648898,822084354,1090519810,1358955266,301990658,570426114,838861570,1107297026,1375732482,318767874,587203330,855638786,1124074242,1392509698,285212931,553648387,822083843,1090519299,1358954755,301990147,570425603,838861059,1107296515,1375731971,318767363,587202819,855638275,1124073731,1392509187,285213187,553648643,822084099,1090519555,1358955011,301990403,570425859,838861315,1107296771,1375732227,318767619,587203075,855638531,1124073987,1392509443,285213443,553648899,822084355,1090519811,1358955267,301990659,570426115,838861571,1107297027,1375732483,318767875,587203331,855638787,1124074243,1392509699,285212932,553648388,822083844,1090519300,1358954756,301990148,570425604,838861060,1107296516,1375731972,318767364,587202820,855638276,1124073732,1392509188,285213188,553648644,822084100,1090519556,1358955012,301990404,570425860,838861316,1107296772,1375732228,318767620,587203076,855638532,1124073988,1392509444,285213444,553648900,822084356,1090519812,1358955268,301990660,570426116,838861572,1107297028,1375732484,318767876,587203332,855638788,1124074244,1392509700,285212933,553648389,822083845,1090519301,1358954757,301990149,570425605,838861061,1107296517,1375731973,318767365,587202821,855638277,1124073733,1392509189,285213189,553648645,822084101,1090519557,1358955013,301990405,570425861,838861317,1107296773,1375732229,318767621,587203077,855638533,1124073989,1392509445,285213445,553648901,822084357,1090519813,1358955269,301990661,570426117,838861573,1107297029,1375732485,318767877,587203333,855638789,1124074245,1392509701,285212934,553648390,822083846,1090519302,1358954758,301990150,570425606,838861062,1107296518,1375731974,318767366,587202822,855638278,1124073734,1392509190,285213190,553648646,822084102,1090519558,1358955014,301990406,570425862,838861318,1107296774,1375732230,318767622,587203078,855638534,1124073990,1392509446,285213446,553648902,822084358,1090519814,1358955270,301990662,570426118,838861574,1107297030,1375732486,318767878,587203334,855638790,1124074246,1392509702,285212935,553648391,822083847,1090519303,1358954759,301990151,570425607,838861063,1107296519,1375731975,318767367,587202823,855638279,1124073735,1392509191,285213191,553648647,822084103,1090519559,1358955015,301990407,570425863,838861319,1107296775,1375732231,318767623,587203079,855638535,1124073991,1392509447,285213447,553648903,822084359,1090519815,1358955271,301990663,570426119,838861575,1107297031,1375732487,318767879,587203335,855638791,1124074247,1392509703,285212944,553648400,822083856,1090519312,1358954768,301990160,570425616,838861072,1107296528,1375731984,318767376,587202832,855638288,1124073744,1392509200,285213200,553648656,822084112,1090519568,1358955024,301990416,570425872,838861328,1107296784,1375732240,318767632,587203088,855638544,1124074000,1392509456,285213456,553648912,822084368,1090519824,1358955280,301990672,570426128,838861584,1107297040,1375732496,318767888,587203344,855638800,1124074256,1392509712,285213712,553649168,822084624,1090520080,1358955536,301990928,570426384,838861840,1107297296,1375732752,318768144,587203600,855639056,1124074512,1392509968,285213968,553649424,822084880,1090520336,1358955792,301991184,570426640,838862096,1107297552,1375733008,318768400,587203856,855639312,1124074768,1392510224,285212960,553648416,822083872,1090519328,1358954784,301990176,570425632,838861088,1107296544,1375732000,318767392,587202848,855638304,1124073760,1392509216,285213216,553648672,822084128,1090519584,1358955040,301990432,570425888,838861344,1107296800,1375732256,318767648,587203104,855638560,1124074016,1392509472,285213472,553648928,822084384,1090519840,1358955296,301990688,570426144,838861600,1107297056,1375732512,318767904,587203360,855638816,1124074272,1392509728,285213728,553649184,822084640,1090520096,1358955552,301990944,570426400,838861856,1107297312,1375732768,318768160,587203616,855639072,1124074528,1392509984,285213984,553649440,822084896,1090520352,1358955808,301991200,570426656,838862112,1107297568,1375733024,318768416,587203872,855639328,1124074784,1392510240,285212976,553648432,822083888,1090519344,1358954800,301990192,570425648,838861104,1107296560,1375732016,318767408,587202864,855638320,1124073776,1392509232,285213232,553648688,822084144,1090519600,1358955056,301990448,570425904,838861360,1107296816,1375732272,318767664,587203120,855638576,1124074032,1392509488,285213488,553648944,822084400,1090519856,1358955312,301990704,570426160,838861616,1107297072,1375732528,318767920,587203376,855638832,1124074288,1392509744,285213744,553649200,822084656,1090520112,1358955568,301990960,570426416,838861872,1107297328,1375732784,318768176,587203632,855639088,1124074544,1392510000,285214000,553649456,822084912,1090520368,1358955824,301991216,570426672,838862128,1107297584,1375733040,318768432,587203888,855639344,1124074800,1392510256,285216768,553652224,822087680,1090523136,1358958592,301993984,570429440,838864896,1107300352,1375735808,318771200,587206656,855642112,1124077568,1392513024,285220864,553656320,822091776,1090527232,1358962688,301998080,570433536,838868992,1107304448,1375739904,318775296,587210752,855646208,1124081664,1392517120,285224960,553660416,822095872,1090531328,1358966784,302002176,570437632,838873088,1107308544,1375744000,318779392,587214848,855650304,1124085760,1392521216,285216769,553652225,822087681,1090523137,1358958593,301993985,570429441,838864897,1107300353,1375735809,318771201,587206657,855642113,1124077569,1392513025,285220865,553656321,822091777,1090527233,1358962689,301998081,570433537,838868993,1107304449,1375739905,318775297,587210753,855646209,1124081665,1392517121,285224961,553660417,822095873,1090531329,1358966785,302002177,570437633,838873089,1107308545,1375744001,318779393,587214849,855650305,1124085761,1392521217,285216770,553652226,822087682,1090523138,1358958594,301993986,570429442,838864898,1107300354,1375735810,318771202,587206658,855642114,1124077570,1392513026,285220866,553656322,822091778,1090527234,1358962690,301998082,570433538,838868994,1107304450,1375739906,318775298,587210754,855646210,1124081666,1392517122,285224962,553660418,822095874,1090531330,1358966786,302002178,570437634,838873090,1107308546,1375744002,318779394,587214850,855650306,1124085762,1392521218,285216771,553652227,822087683,1090523139,1358958595,301993987,570429443,838864899,1107300355,1375735811,318771203,587206659,855642115,1124077571,1392513027,285220867,553656323,822091779,1090527235,1358962691,301998083,570433539,838868995,1107304451,1375739907,318775299,587210755,855646211,1124081667,1392517123,285224963,553660419,822095875,1090531331,1358966787,302002179,570437635,838873091,1107308547,1375744003,318779395,587214851,855650307,1124085763,1392521219,285216772,553652228,822087684,1090523140,1358958596,301993988,570429444,838864900,1107300356,1375735812,318771204,587206660,855642116,1124077572,1392513028,285220868,553656324,822091780,1090527236,1358962692,301998084,570433540,838868996,1107304452,1375739908,318775300,587210756,855646212,1124081668,1392517124,285224964,553660420,822095876,1090531332,1358966788,302002180,570437636,838873092,1107308548,1375744004,318779396,587214852,855650308,1124085764,1392521220,285216773,553652229,822087685,1090523141,1358958597,301993989,570429445,838864901,1107300357,1375735813,318771205,587206661,855642117,1124077573,1392513029,285220869,553656325,822091781,1090527237,1358962693,301998085,570433541,838868997,1107304453,1375739909,318775301,587210757,855646213,1124081669,1392517125,285224965,553660421,822095877,1090531333,1358966789,302002181,570437637,838873093,1107308549,1375744005,318779397,587214853,855650309,1124085765,1392521221,285216774,553652230,822087686,1090523142,1358958598,301993990,570429446,838864902,1107300358,1375735814,318771206,587206662,855642118,1124077574,1392513030,285220870,553656326,822091782,1090527238,1358962694,301998086,570433542,838868998,1107304454,1375739910,318775302,587210758,855646214,1124081670,1392517126,285224966,553660422,822095878,1090531334,1358966790,302002182,570437638,838873094,1107308550,1375744006,318779398,587214854,855650310,1124085766,1392521222,285216775,553652231,822087687,1090523143,1358958599,301993991,570429447,838864903,1107300359,1375735815,318771207,587206663,855642119,1124077575,1392513031,285220871,553656327,822091783,1090527239,1358962695,301998087,570433543,838868999,1107304455,1375739911,318775303,587210759,855646215,1124081671,1392517127,285224967,553660423,822095879,1090531335,1358966791,302002183,570437639,838873095,1107308551,1375744007,318779399,587214855,855650311,1124085767,1392521223,285216784,553652240,822087696,1090523152,1358958608,301994000,570429456,838864912,1107300368,1375735824,318771216,587206672,855642128,1124077584,1392513040,285220880,553656336,822091792,1090527248,1358962704,301998096,570433552,838869008,1107304464,1375739920,318775312,587210768,855646224,1124081680,1392517136,285224976,553660432,822095888,1090531344,1358966800,302002192,570437648,838873104,1107308560,1375744016,318779408,587214864,855650320,1124085776,1392521232,285216800,553652256,822087712,1090523168,1358958624,301994016,570429472,838864928,1107300384,1375735840,318771232,587206688,855642144,1124077600,1392513056,285220896,553656352,822091808,1090527264,1358962720,301998112,570433568,838869024,1107304480,1375739936,318775328,587210784,855646240,1124081696,1392517152,285224992,553660448,822095904,1090531360,1358966816,302002208,570437664,838873120,1107308576,1375744032,318779424,587214880,855650336,1124085792,1392521248,285216816,553652272,822087728,1090523184,1358958640,301994032,570429488,838864944,1107300400,1375735856,318771248,587206704,855642160,1124077616,1392513072,285220912,553656368,822091824,1090527280,1358962736,301998128,570433584,838869040,1107304496,1375739952,318775344,587210800,855646256,1124081712,1392517168,285225008,553660464,822095920,1090531376,1358966832,302002224,570437680,838873136,1107308592,1375744048,318779440,587214896,855650352,1124085808,1392521264,285217024,553652480,822087936,1090523392,1358958848,301994240,570429696,838865152,1107300608,1375736064,318771456,587206912,855642368,1124077824,1392513280,285221120,553656576,822092032,1090527488,1358962944,301998336,570433792,838869248,1107304704,1375740160,318775552,587211008,855646464,1124081920,1392517376,285225216,553660672,822096128,1090531584,1358967040,302002432,570437888,838873344,1107308800,1375744256,318779648,587215104,855650560,1124086016,1392521472,285229312,553664768,822100224,1090535680,1358971136,302006528,570441984,838877440,1107312896,1375748352,318783744,587219200,855654656,1124090112,1392525568,285233408,553668864,822104320,1090539776,1358975232,302010624,570446080,838881536,1107316992,1375752448,318787840,587223296,855658752,1124094208,1392529664,285217280,553652736,822088192,1090523648,1358959104,301994496,570429952,838865408,1107300864,1375736320,318771712,587207168,855642624,1124078080,1392513536,285221376,553656832,822092288,1090527744,1358963200,301998592,570434048,838869504,1107304960,1375740416,318775808,587211264,855646720,1124082176,1392517632,285225472,553660928,822096384,1090531840,1358967296,302002688,570438144,838873600,1107309056,1375744512,318779904,587215360,855650816,1124086272,1392521728,285229568,553665024,822100480,1090535936,1358971392,302006784,570442240,838877696,1107313152,1375748608,318784000,587219456,855654912,1124090368,1392525824,285233664,553669120,822104576,1090540032,1358975488,302010880,570446336,838881792,1107317248,1375752704,318788096,587223552,855659008,1124094464,1392529920,285217536,553652992,822088448,1090523904,1358959360,301994752,570430208,838865664,1107301120,1375736576,318771968,587207424,855642880,1124078336,1392513792,285221632,553657088,822092544,1090528000,1358963456,301998848,570434304,838869760,1107305216,1375740672,318776064,587211520,855646976,1124082432,1392517888,285225728,553661184,822096640,1090532096,1358967552,302002944,570438400,838873856,1107309312,1375744768,318780160,587215616,855651072,1124086528,1392521984,285229824,553665280,822100736,1090536192,1358971648,302007040,570442496,838877952,1107313408,1375748864,318784256,587219712,855655168,1124090624,1392526080,285233920,553669376,822104832,1090540288,1358975744,302011136,570446592,838882048,1107317504,1375752960,318788352,587223808,855659264,1124094720,1392530176,285278208,553713664,822149120,1090584576,1359020032,302055424,570490880,838926336,1107361792,1375797248,318832640,587268096,855703552,1124139008,1392574464,285343744,553779200,822214656,1090650112,1359085568,302120960,570556416,838991872,1107427328,1375862784,318898176,587333632,855769088,1124204544,1392640000,285409280,553844736,822280192,1090715648,1359151104,302186496,570621952,839057408,1107492864,1375928320,318963712,587399168,855834624,1124270080,1392705536,285278209,553713665,822149121,1090584577,1359020033,302055425,570490881,838926337,1107361793,1375797249,318832641,587268097,855703553,1124139009,1392574465,285343745,553779201,822214657,1090650113,1359085569,302120961,570556417,838991873,1107427329,1375862785,318898177,587333633,855769089,1124204545,1392640001,285409281,553844737,822280193,1090715649,1359151105,302186497,570621953,839057409,1107492865,1375928321,318963713,587399169,855834625,1124270081,1392705537,285278210,553713666,822149122,1090584578,1359020034,302055426,570490882,838926338,1107361794,1375797250,318832642,587268098,855703554,1124139010,1392574466,285343746,553779202,822214658,1090650114,1359085570,302120962,570556418,838991874,1107427330,1375862786,318898178,587333634,855769090,1124204546,1392640002,285409282,553844738,822280194,1090715650,1359151106,302186498,570621954,839057410,1107492866,1375928322,318963714,587399170,855834626,1124270082,1392705538,285278211,553713667,822149123,1090584579,1359020035,302055427,570490883,838926339,1107361795,1375797251,318832643,587268099,855703555,1124139011,1392574467,285343747,553779203,822214659,1090650115,1359085571,302120963,570556419,838991875,1107427331,1375862787,318898179,587333635,855769091,1124204547,1392640003,285409283,553844739,822280195,1090715651,1359151107,302186499,570621955,839057411,1107492867,1375928323,318963715,587399171,855834627,1124270083,1392705539,285278212,553713668,822149124,1090584580,1359020036,302055428,570490884,838926340,1107361796,1375797252,318832644,587268100,855703556,1124139012,1392574468,285343748,553779204,822214660,1090650116,1359085572,302120964,570556420,838991876,1107427332,1375862788,318898180,587333636,855769092,1124204548,1392640004,285409284,553844740,822280196,1090715652,1359151108,302186500,570621956,839057412,1107492868,1375928324,318963716,587399172,855834628,1124270084,1392705540,285278213,553713669,822149125,1090584581,1359020037,302055429,570490885,838926341,1107361797,1375797253,318832645,587268101,855703557,1124139013,1392574469,285343749,553779205,822214661,1090650117,1359085573,302120965,570556421,838991877,1107427333,1375862789,318898181,587333637,855769093,1124204549,1392640005,285409285,553844741,822280197,1090715653,1359151109,302186501,570621957,839057413,1107492869,1375928325,318963717,587399173,855834629,1124270085,1392705541,285278214,553713670,822149126,1090584582,1359020038,302055430,570490886,838926342,1107361798,1375797254,318832646,587268102,855703558,1124139014,1392574470,285343750,553779206,822214662,1090650118,1359085574,302120966,570556422,838991878,1107427334,1375862790,318898182,587333638,855769094,1124204550,1392640006,285409286,553844742,822280198,1090715654,1359151110,302186502,570621958,839057414,1107492870,1375928326,318963718,587399174,855834630,1124270086,1392705542,285278215,553713671,822149127,1090584583,1359020039,302055431,570490887,838926343,1107361799,1375797255,318832647,587268103,855703559,1124139015,1392574471,285343751,553779207,822214663,1090650119,1359085575,302120967,570556423,838991879,1107427335,1375862791,318898183,587333639,855769095,1124204551,1392640007,285409287,553844743,822280199,1090715655,1359151111,302186503,570621959,839057415,1107492871,1375928327,318963719,587399175,855834631,1124270087,1392705543,285278224,553713680,822149136,1090584592,1359020048,302055440,570490896,838926352,1107361808,1375797264,318832656,587268112,855703568,1124139024,1392574480,285343760,553779216,822214672,1090650128,1359085584,302120976,570556432,838991888,1107427344,1375862800,318898192,587333648,855769104,1124204560,1392640016,285409296,553844752,822280208,1090715664,1359151120,302186512,570621968,839057424,1107492880,1375928336,318963728,587399184,855834640,1124270096,1392705552,285278240,553713696,822149152,1090584608,1359020064,302055456,570490912,838926368,1107361824,1375797280,318832672,587268128,855703584,1124139040,1392574496,285343776,553779232,822214688,1090650144,1359085600,302120992,570556448,838991904,1107427360,1375862816,318898208,587333664,855769120,1124204576,1392640032,285409312,553844768,822280224,1090715680,1359151136,302186528,570621984,839057440,1107492896,1375928352,318963744,587399200,855834656,1124270112,1392705568,285278256,553713712,822149168,1090584624,1359020080,302055472,570490928,838926384,1107361840,1375797296,318832688,587268144,855703600,1124139056,1392574512,285343792,553779248,822214704,1090650160,1359085616,302121008,570556464,838991920,1107427376,1375862832,318898224,587333680,855769136,1124204592,1392640048,285409328,553844784,822280240,1090715696,1359151152,302186544,570622000,839057456,1107492912,1375928368,318963760,587399216,855834672,1124270128,1392705584,285278464,553713920,822149376,1090584832,1359020288,302055680,570491136,838926592,1107362048,1375797504,318832896,587268352,855703808,1124139264,1392574720,285344000,553779456,822214912,1090650368,1359085824,302121216,570556672,838992128,1107427584,1375863040,318898432,587333888,855769344,1124204800,1392640256,285409536,553844992,822280448,1090715904,1359151360,302186752,570622208,839057664,1107493120,1375928576,318963968,587399424,855834880,1124270336,1392705792,285278720,553714176,822149632,1090585088,1359020544,302055936,570491392,838926848,1107362304,1375797760,318833152,587268608,855704064,1124139520,1392574976,285344256,553779712,822215168,1090650624,1359086080,302121472,570556928,838992384,1107427840,1375863296,318898688,587334144,855769600,1124205056,1392640512,285409792,553845248,822280704,1090716160,1359151616,302187008,570622464,839057920,1107493376,1375928832,318964224,587399680,855835136,1124270592,1392706048,285278976,553714432,822149888,1090585344,1359020800,302056192,570491648,838927104,1107362560,1375798016,318833408,587268864,855704320,1124139776,1392575232,285344512,553779968,822215424,1090650880,1359086336,302121728,570557184,838992640,1107428096,1375863552,318898944,587334400,855769856,1124205312,1392640768,285410048,553845504,822280960,1090716416,1359151872,302187264,570622720,839058176,1107493632,1375929088,318964480,587399936,855835392,1124270848,1392706304,285282304,553717760,822153216,1090588672,1359024128,302059520,570494976,838930432,1107365888,1375801344,318836736,587272192,855707648,1124143104,1392578560,285347840,553783296,822218752,1090654208,1359089664,302125056,570560512,838995968,1107431424,1375866880,318902272,587337728,855773184,1124208640,1392644096,285413376,553848832,822284288,1090719744,1359155200,302190592,570626048,839061504,1107496960,1375932416,318967808,587403264,855838720,1124274176,1392709632,285478912,553914368,822349824,1090785280,1359220736,302256128,570691584,839127040,1107562496,1375997952,319033344,587468800,855904256,1124339712,1392775168,285544448,553979904,822415360,1090850816,1359286272,302321664,570757120,839192576,1107628032,1376063488,319098880,587534336,855969792,1124405248,1392840704,285286400,553721856,822157312,1090592768,1359028224,302063616,570499072,838934528,1107369984,1375805440,318840832,587276288,855711744,1124147200,1392582656,285351936,553787392,822222848,1090658304,1359093760,302129152,570564608,839000064,1107435520,1375870976,318906368,587341824,855777280,1124212736,1392648192,285417472,553852928,822288384,1090723840,1359159296,302194688,570630144,839065600,1107501056,1375936512,318971904,587407360,855842816,1124278272,1392713728,285483008,553918464,822353920,1090789376,1359224832,302260224,570695680,839131136,1107566592,1376002048,319037440,587472896,855908352,1124343808,1392779264,285548544,553984000,822419456,1090854912,1359290368,302325760,570761216,839196672,1107632128,1376067584,319102976,587538432,855973888,1124409344,1392844800,285290496,553725952,822161408,1090596864,1359032320,302067712,570503168,838938624,1107374080,1375809536,318844928,587280384,855715840,1124151296,1392586752,285356032,553791488,822226944,1090662400,1359097856,302133248,570568704,839004160,1107439616,1375875072,318910464,587345920,855781376,1124216832,1392652288,285421568,553857024,822292480,1090727936,1359163392,302198784,570634240,839069696,1107505152,1375940608,318976000,587411456,855846912,1124282368,1392717824,285487104,553922560,822358016,1090793472,1359228928,302264320,570699776,839135232,1107570688,1376006144,319041536,587476992,855912448,1124347904,1392783360,285552640,553988096,822423552,1090859008,1359294464,302329856,570765312,839200768,1107636224,1376071680,319107072,587542528,855977984,1124413440,1392848896,286261248,554696704,823132160,1091567616,1360003072,1628438528,1896873984,303038464,571473920,839909376,1108344832,1376780288,1645215744,1913651200,319815680,588251136,856686592,1125122048,1393557504,1661992960,1930428416,336592896,605028352,873463808,1141899264,1410334720,1678770176,1947205632,353370112,621805568,890241024,1158676480,1427111936,1695547392,1963982848,287309824,555745280,824180736,1092616192,1361051648,1629487104,1897922560,304087040,572522496,840957952,1109393408,1377828864,1646264320,1914699776,320864256,589299712,857735168,1126170624,1394606080,1663041536,1931476992,337641472,606076928,874512384,1142947840,1411383296,1679818752,1948254208,354418688,622854144,891289600,1159725056,1428160512,1696595968,1965031424,288358400,556793856,825229312,1093664768,1362100224,1630535680,1898971136,305135616,573571072,842006528,1110441984,1378877440,1647312896,1915748352,321912832,590348288,858783744,1127219200,1395654656,1664090112,1932525568,338690048,607125504,875560960,1143996416,1412431872,1680867328,1949302784,355467264,623902720,892338176,1160773632,1429209088,1697644544,1966080000,286261249,554696705,823132161,1091567617,1360003073,1628438529,1896873985,303038465,571473921,839909377,1108344833,1376780289,1645215745,1913651201,319815681,588251137,856686593,1125122049,1393557505,1661992961,1930428417,336592897,605028353,873463809,1141899265,1410334721,1678770177,1947205633,353370113,621805569,890241025,1158676481,1427111937,1695547393,1963982849,287309825,555745281,824180737,1092616193,1361051649,1629487105,1897922561,304087041,572522497,840957953,1109393409,1377828865,1646264321,1914699777,320864257,589299713,857735169,1126170625,1394606081,1663041537,1931476993,337641473,606076929,874512385,1142947841,1411383297,1679818753,1948254209,354418689,622854145,891289601,1159725057,1428160513,1696595969,1965031425,288358401,556793857,825229313,1093664769,1362100225,1630535681,1898971137,305135617,573571073,842006529,1110441985,1378877441,1647312897,1915748353,321912833,590348289,858783745,1127219201,1395654657,1664090113,1932525569,338690049,607125505,875560961,1143996417,1412431873,1680867329,1949302785,355467265,623902721,892338177,1160773633,1429209089,1697644545,1966080001,286261250,554696706,823132162,1091567618,1360003074,1628438530,1896873986,303038466,571473922,839909378,1108344834,1376780290,1645215746,1913651202,319815682,588251138,856686594,1125122050,1393557506,1661992962,1930428418,336592898,605028354,873463810,1141899266,1410334722,1678770178,1947205634,353370114,621805570,890241026,1158676482,1427111938,1695547394,1963982850,287309826,555745282,824180738,1092616194,1361051650,1629487106,1897922562,304087042,572522498,840957954,1109393410,1377828866,1646264322,1914699778,320864258,589299714,857735170,1126170626,1394606082,1663041538,1931476994,337641474,606076930,874512386,1142947842,1411383298,1679818754,1948254210,354418690,622854146,891289602,1159725058,1428160514,1696595970,1965031426,288358402,556793858,825229314,1093664770,1362100226,1630535682,1898971138,305135618,573571074,842006530,1110441986,1378877442,1647312898,1915748354,321912834,590348290,858783746,1127219202,1395654658,1664090114,1932525570,338690050,607125506,875560962,1143996418,1412431874,1680867330,1949302786,355467266,623902722,892338178,1160773634,1429209090,1697644546,1966080002,286261251,554696707,823132163,1091567619,1360003075,1628438531,1896873987,303038467,571473923,839909379,1108344835,1376780291,1645215747,1913651203,319815683,588251139,856686595,1125122051,1393557507,1661992963,1930428419,336592899,605028355,873463811,1141899267,1410334723,1678770179,1947205635,353370115,621805571,890241027,1158676483,1427111939,1695547395,1963982851,287309827,555745283,824180739,1092616195,1361051651,1629487107,1897922563,304087043,572522499,840957955,1109393411,1377828867,1646264323,1914699779,320864259,589299715,857735171,1126170627,1394606083,1663041539,1931476995,337641475,606076931,874512387,1142947843,1411383299,1679818755,1948254211,354418691,622854147,891289603,1159725059,1428160515,1696595971,1965031427,288358403,556793859,825229315,1093664771,1362100227,1630535683,1898971139,305135619,573571075,842006531,1110441987,1378877443,1647312899,1915748355,321912835,590348291,858783747,1127219203,1395654659,1664090115,1932525571,338690051,607125507,875560963,1143996419,1412431875,1680867331,1949302787,355467267,623902723,892338179,1160773635,1429209091,1697644547,1966080003,286261252,554696708,823132164,1091567620,1360003076,1628438532,1896873988,303038468,571473924,839909380,1108344836,1376780292,1645215748,1913651204,319815684,588251140,856686596,1125122052,1393557508,1661992964,1930428420,336592900,605028356,873463812,1141899268,1410334724,1678770180,1947205636,353370116,621805572,890241028,1158676484,1427111940,1695547396,1963982852,287309828,555745284,824180740,1092616196,1361051652,1629487108,1897922564,304087044,572522500,840957956,1109393412,1377828868,1646264324,1914699780,320864260,589299716,857735172,1126170628,1394606084,1663041540,1931476996,337641476,606076932,874512388,1142947844,1411383300,1679818756,1948254212,354418692,622854148,891289604,1159725060,1428160516,1696595972,1965031428,288358404,556793860,825229316,1093664772,1362100228,1630535684,1898971140,305135620,573571076,842006532,1110441988,1378877444,1647312900,1915748356,321912836,590348292,858783748,1127219204,1395654660,1664090116,1932525572,338690052,607125508,875560964,1143996420,1412431876,1680867332,1949302788,355467268,623902724,892338180,1160773636,1429209092,1697644548,1966080004,286261253,554696709,823132165,1091567621,1360003077,1628438533,1896873989,303038469,571473925,839909381,1108344837,1376780293,1645215749,1913651205,319815685,588251141,856686597,1125122053,1393557509,1661992965,1930428421,336592901,605028357,873463813,1141899269,1410334725,1678770181,1947205637,353370117,621805573,890241029,1158676485,1427111941,1695547397,1963982853,287309829,555745285,824180741,1092616197,1361051653,1629487109,1897922565,304087045,572522501,840957957,1109393413,1377828869,1646264325,1914699781,320864261,589299717,857735173,1126170629,1394606085,1663041541,1931476997,337641477,606076933,874512389,1142947845,1411383301,1679818757,1948254213,354418693,622854149,891289605,1159725061,1428160517,1696595973,1965031429,288358405,556793861,825229317,1093664773,1362100229,1630535685,1898971141,305135621,573571077,842006533,1110441989,1378877445,1647312901,1915748357,321912837,590348293,858783749,1127219205,1395654661,1664090117,1932525573,338690053,607125509,875560965,1143996421,1412431877,1680867333,1949302789,355467269,623902725,892338181,1160773637,1429209093,1697644549,1966080005,286261254,554696710,823132166,1091567622,1360003078,1628438534,1896873990,303038470,571473926,839909382,1108344838,1376780294,1645215750,1913651206,319815686,588251142,856686598,1125122054,1393557510,1661992966,1930428422,336592902,605028358,873463814,1141899270,1410334726,1678770182,1947205638,353370118,621805574,890241030,1158676486,1427111942,1695547398,1963982854,287309830,555745286,824180742,1092616198,1361051654,1629487110,1897922566,304087046,572522502,840957958,1109393414,1377828870,1646264326,1914699782,320864262,589299718,857735174,1126170630,1394606086,1663041542,1931476998,337641478,606076934,874512390,1142947846,1411383302,1679818758,1948254214,354418694,622854150,891289606,1159725062,1428160518,1696595974,1965031430,288358406,556793862,825229318,1093664774,1362100230,1630535686,1898971142,305135622,573571078,842006534,1110441990,1378877446,1647312902,1915748358,321912838,590348294,858783750,1127219206,1395654662,1664090118,1932525574,338690054,607125510,875560966,1143996422,1412431878,1680867334,1949302790,355467270,623902726,892338182,1160773638,1429209094,1697644550,1966080006,286261255,554696711,823132167,1091567623,1360003079,1628438535,1896873991,303038471,571473927,839909383,1108344839,1376780295,1645215751,1913651207,319815687,588251143,856686599,1125122055,1393557511,1661992967,1930428423,336592903,605028359,873463815,1141899271,1410334727,1678770183,1947205639,353370119,621805575,890241031,1158676487,1427111943,1695547399,1963982855,287309831,555745287,824180743,1092616199,1361051655,1629487111,1897922567,304087047,572522503,840957959,1109393415,1377828871,1646264327,1914699783,320864263,589299719,857735175,1126170631,1394606087,1663041543,1931476999,337641479,606076935,874512391,1142947847,1411383303,1679818759,1948254215,354418695,622854151,891289607,1159725063,1428160519,1696595975,1965031431,288358407,556793863,825229319,1093664775,1362100231,1630535687,1898971143,305135623,573571079,842006535,1110441991,1378877447,1647312903,1915748359,321912839,590348295,858783751,1127219207,1395654663,1664090119,1932525575,338690055,607125511,875560967,1143996423,1412431879,1680867335,1949302791,355467271,623902727,892338183,1160773639,1429209095,1697644551,1966080007,286261256,554696712,823132168,1091567624,1360003080,1628438536,1896873992,303038472,571473928,839909384,1108344840,1376780296,1645215752,1913651208,319815688,588251144,856686600,1125122056,1393557512,1661992968,1930428424,336592904,605028360,873463816,1141899272,1410334728,1678770184,1947205640,353370120,621805576,890241032,1158676488,1427111944,1695547400,1963982856,287309832,555745288,824180744,1092616200,1361051656,1629487112,1897922568,304087048,572522504,840957960,1109393416,1377828872,1646264328,1914699784,320864264,589299720,857735176,1126170632,1394606088,1663041544,1931477000,337641480,606076936,874512392,1142947848,1411383304,1679818760,1948254216,354418696,622854152,891289608,1159725064,1428160520,1696595976,1965031432,288358408,556793864,825229320,1093664776,1362100232,1630535688,1898971144,305135624,573571080,842006536,1110441992,1378877448,1647312904,1915748360,321912840,590348296,858783752,1127219208,1395654664,1664090120,1932525576,338690056,607125512,875560968,1143996424,1412431880,1680867336,1949302792,355467272,623902728,892338184,1160773640,1429209096,1697644552,1966080008,286261257,554696713,823132169,1091567625,1360003081,1628438537,1896873993,303038473,571473929,839909385,1108344841,1376780297,1645215753,1913651209,319815689,588251145,856686601,1125122057,1393557513,1661992969,1930428425,336592905,605028361,873463817,1141899273,1410334729,1678770185,1947205641,353370121,621805577,890241033,1158676489,1427111945,1695547401,1963982857,287309833,555745289,824180745,1092616201,1361051657,1629487113,1897922569,304087049,572522505,840957961,1109393417,1377828873,1646264329,1914699785,320864265,589299721,857735177,1126170633,1394606089,1663041545,1931477001,337641481,606076937,874512393,1142947849,1411383305,1679818761,1948254217,354418697,622854153,891289609,1159725065,1428160521,1696595977,1965031433,288358409,556793865,825229321,1093664777,1362100233,1630535689,1898971145,305135625,573571081,842006537,1110441993,1378877449,1647312905,1915748361,321912841,590348297,858783753,1127219209,1395654665,1664090121,1932525577,338690057,607125513,875560969,1143996425,1412431881,1680867337,1949302793,355467273,623902729,892338185,1160773641,1429209097,1697644553,1966080009,286261264,554696720,823132176,1091567632,1360003088,1628438544,1896874000,303038480,571473936,839909392,1108344848,1376780304,1645215760,1913651216,319815696,588251152,856686608,1125122064,1393557520,1661992976,1930428432,336592912,605028368,873463824,1141899280,1410334736,1678770192,1947205648,353370128,621805584,890241040,1158676496,1427111952,1695547408,1963982864,287309840,555745296,824180752,1092616208,1361051664,1629487120,1897922576,304087056,572522512,840957968,1109393424,1377828880,1646264336,1914699792,320864272,589299728,857735184,1126170640,1394606096,1663041552,1931477008,337641488,606076944,874512400,1142947856,1411383312,1679818768,1948254224,354418704,622854160,891289616,1159725072,1428160528,1696595984,1965031440,288358416,556793872,825229328,1093664784,1362100240,1630535696,1898971152,305135632,573571088,842006544,1110442000,1378877456,1647312912,1915748368,321912848,590348304,858783760,1127219216,1395654672,1664090128,1932525584,338690064,607125520,875560976,1143996432,1412431888,1680867344,1949302800,355467280,623902736,892338192,1160773648,1429209104,1697644560,1966080016,286261280,554696736,823132192,1091567648,1360003104,1628438560,1896874016,303038496,571473952,839909408,1108344864,1376780320,1645215776,1913651232,319815712,588251168,856686624,1125122080,1393557536,1661992992,1930428448,336592928,605028384,873463840,1141899296,1410334752,1678770208,1947205664,353370144,621805600,890241056,1158676512,1427111968,1695547424,1963982880,287309856,555745312,824180768,1092616224,1361051680,1629487136,1897922592,304087072,572522528,840957984,1109393440,1377828896,1646264352,1914699808,320864288,589299744,857735200,1126170656,1394606112,1663041568,1931477024,337641504,606076960,874512416,1142947872,1411383328,1679818784,1948254240,354418720,622854176,891289632,1159725088,1428160544,1696596000,1965031456,288358432,556793888,825229344,1093664800,1362100256,1630535712,1898971168,305135648,573571104,842006560,1110442016,1378877472,1647312928,1915748384,321912864,590348320,858783776,1127219232,1395654688,1664090144,1932525600,338690080,607125536,875560992,1143996448,1412431904,1680867360,1949302816,355467296,623902752,892338208,1160773664,1429209120,1697644576,1966080032,286261296,554696752,823132208,1091567664,1360003120,1628438576,1896874032,303038512,571473968,839909424,1108344880,1376780336,1645215792,1913651248,319815728,588251184,856686640,1125122096,1393557552,1661993008,1930428464,336592944,605028400,873463856,1141899312,1410334768,1678770224,1947205680,353370160,621805616,890241072,1158676528,1427111984,1695547440,1963982896,287309872,555745328,824180784,1092616240,1361051696,1629487152,1897922608,304087088,572522544,840958000,1109393456,1377828912,1646264368,1914699824,320864304,589299760,857735216,1126170672,1394606128,1663041584,1931477040,337641520,606076976,874512432,1142947888,1411383344,1679818800,1948254256,354418736,622854192,891289648,1159725104,1428160560,1696596016,1965031472,288358448,556793904,825229360,1093664816,1362100272,1630535728,1898971184,305135664,573571120,842006576,1110442032,1378877488,1647312944,1915748400,321912880,590348336,858783792,1127219248,1395654704,1664090160,1932525616,338690096,607125552,875561008,1143996464,1412431920,1680867376,1949302832,355467312,623902768,892338224,1160773680,1429209136,1697644592,1966080048,286261504,554696960,823132416,1091567872,1360003328,1628438784,1896874240,303038720,571474176,839909632,1108345088,1376780544,1645216000,1913651456,319815936,588251392,856686848,1125122304,1393557760,1661993216,1930428672,336593152,605028608,873464064,1141899520,1410334976,1678770432,1947205888,353370368,621805824,890241280,1158676736,1427112192,1695547648,1963983104,287310080,555745536,824180992,1092616448,1361051904,1629487360,1897922816,304087296,572522752,840958208,1109393664,1377829120,1646264576,1914700032,320864512,589299968,857735424,1126170880,1394606336,1663041792,1931477248,337641728,606077184,874512640,1142948096,1411383552,1679819008,1948254464,354418944,622854400,891289856,1159725312,1428160768,1696596224,1965031680,288358656,556794112,825229568,1093665024,1362100480,1630535936,1898971392,305135872,573571328,842006784,1110442240,1378877696,1647313152,1915748608,321913088,590348544,858784000,1127219456,1395654912,1664090368,1932525824,338690304,607125760,875561216,1143996672,1412432128,1680867584,1949303040,355467520,623902976,892338432,1160773888,1429209344,1697644800,1966080256,286261760,554697216,823132672,1091568128,1360003584,1628439040,1896874496,303038976,571474432,839909888,1108345344,1376780800,1645216256,1913651712,319816192,588251648,856687104,1125122560,1393558016,1661993472,1930428928,336593408,605028864,873464320,1141899776,1410335232,1678770688,1947206144,353370624,621806080,890241536,1158676992,1427112448,1695547904,1963983360,287310336,555745792,824181248,1092616704,1361052160,1629487616,1897923072,304087552,572523008,840958464,1109393920,1377829376,1646264832,1914700288,320864768,589300224,857735680,1126171136,1394606592,1663042048,1931477504,337641984,606077440,874512896,1142948352,1411383808,1679819264,1948254720,354419200,622854656,891290112,1159725568,1428161024,1696596480,1965031936,288358912,556794368,825229824,1093665280,1362100736,1630536192,1898971648,305136128,573571584,842007040,1110442496,1378877952,1647313408,1915748864,321913344,590348800,858784256,1127219712,1395655168,1664090624,1932526080,338690560,607126016,875561472,1143996928,1412432384,1680867840,1949303296,355467776,623903232,892338688,1160774144,1429209600,1697645056,1966080512,286262016,554697472,823132928,1091568384,1360003840,1628439296,1896874752,303039232,571474688,839910144,1108345600,1376781056,1645216512,1913651968,319816448,588251904,856687360,1125122816,1393558272,1661993728,1930429184,336593664,605029120,873464576,1141900032,1410335488,1678770944,1947206400,353370880,621806336,890241792,1158677248,1427112704,1695548160,1963983616,287310592,555746048,824181504,1092616960,1361052416,1629487872,1897923328,304087808,572523264,840958720,1109394176,1377829632,1646265088,1914700544,320865024,589300480,857735936,1126171392,1394606848,1663042304,1931477760,337642240,606077696,874513152,1142948608,1411384064,1679819520,1948254976,354419456,622854912,891290368,1159725824,1428161280,1696596736,1965032192,288359168,556794624,825230080,1093665536,1362100992,1630536448,1898971904,305136384,573571840,842007296,1110442752,1378878208,1647313664,1915749120,321913600,590349056,858784512,1127219968,1395655424,1664090880,1932526336,338690816,607126272,875561728,1143997184,1412432640,1680868096,1949303552,355468032,623903488,892338944,1160774400,1429209856,1697645312,1966080768,286265344,554700800,823136256,1091571712,1360007168,1628442624,1896878080,303042560,571478016,839913472,1108348928,1376784384,1645219840,1913655296,319819776,588255232,856690688,1125126144,1393561600,1661997056,1930432512,336596992,605032448,873467904,1141903360,1410338816,1678774272,1947209728,353374208,621809664,890245120,1158680576,1427116032,1695551488,1963986944,287313920,555749376,824184832,1092620288,1361055744,1629491200,1897926656,304091136,572526592,840962048,1109397504,1377832960,1646268416,1914703872,320868352,589303808,857739264,1126174720,1394610176,1663045632,1931481088,337645568,606081024,874516480,1142951936,1411387392,1679822848,1948258304,354422784,622858240,891293696,1159729152,1428164608,1696600064,1965035520,288362496,556797952,825233408,1093668864,1362104320,1630539776,1898975232,305139712,573575168,842010624,1110446080,1378881536,1647316992,1915752448,321916928,590352384,858787840,1127223296,1395658752,1664094208,1932529664,338694144,607129600,875565056,1144000512,1412435968,1680871424,1949306880,355471360,623906816,892342272,1160777728,1429213184,1697648640,1966084096,286269440,554704896,823140352,1091575808,1360011264,1628446720,1896882176,303046656,571482112,839917568,1108353024,1376788480,1645223936,1913659392,319823872,588259328,856694784,1125130240,1393565696,1662001152,1930436608,336601088,605036544,873472000,1141907456,1410342912,1678778368,1947213824,353378304,621813760,890249216,1158684672,1427120128,1695555584,1963991040,287318016,555753472,824188928,1092624384,1361059840,1629495296,1897930752,304095232,572530688,840966144,1109401600,1377837056,1646272512,1914707968,320872448,589307904,857743360,1126178816,1394614272,1663049728,1931485184,337649664,606085120,874520576,1142956032,1411391488,1679826944,1948262400,354426880,622862336,891297792,1159733248,1428168704,1696604160,1965039616,288366592,556802048,825237504,1093672960,1362108416,1630543872,1898979328,305143808,573579264,842014720,1110450176,1378885632,1647321088,1915756544,321921024,590356480,858791936,1127227392,1395662848,1664098304,1932533760,338698240,607133696,875569152,1144004608,1412440064,1680875520,1949310976,355475456,623910912,892346368,1160781824,1429217280,1697652736,1966088192,286273536,554708992,823144448,1091579904,1360015360,1628450816,1896886272,303050752,571486208,839921664,1108357120,1376792576,1645228032,1913663488,319827968,588263424,856698880,1125134336,1393569792,1662005248,1930440704,336605184,605040640,873476096,1141911552,1410347008,1678782464,1947217920,353382400,621817856,890253312,1158688768,1427124224,1695559680,1963995136,287322112,555757568,824193024,1092628480,1361063936,1629499392,1897934848,304099328,572534784,840970240,1109405696,1377841152,1646276608,1914712064,320876544,589312000,857747456,1126182912,1394618368,1663053824,1931489280,337653760,606089216,874524672,1142960128,1411395584,1679831040,1948266496,354430976,622866432,891301888,1159737344,1428172800,1696608256,1965043712,288370688,556806144,825241600,1093677056,1362112512,1630547968,1898983424,305147904,573583360,842018816,1110454272,1378889728,1647325184,1915760640,321925120,590360576,858796032,1127231488,1395666944,1664102400,1932537856,338702336,607137792,875573248,1144008704,1412444160,1680879616,1949315072,355479552,623915008,892350464,1160785920,1429221376,1697656832,1966092288,286326784,554762240,823197696,1091633152,1360068608,1628504064,1896939520,2165374976,2433810432,303104000,571539456,839974912,1108410368,1376845824,1645281280,1913716736,2182152192,2450587648,319881216,588316672,856752128,1125187584,1393623040,1662058496,1930493952,2198929408,2467364864,336658432,605093888,873529344,1141964800,1410400256,1678835712,1947271168,2215706624,2484142080,353435648,621871104,890306560,1158742016,1427177472,1695612928,1964048384,2232483840,2500919296,370212864,638648320,907083776,1175519232,1443954688,1712390144,1980825600,2249261056,2517696512,386990080,655425536,923860992,1192296448,1460731904,1729167360,1997602816,2266038272,2534473728,287375360,555810816,824246272,1092681728,1361117184,1629552640,1897988096,2166423552,2434859008,304152576,572588032,841023488,1109458944,1377894400,1646329856,1914765312,2183200768,2451636224,320929792,589365248,857800704,1126236160,1394671616,1663107072,1931542528,2199977984,2468413440,337707008,606142464,874577920,1143013376,1411448832,1679884288,1948319744,2216755200,2485190656,354484224,622919680,891355136,1159790592,1428226048,1696661504,1965096960,2233532416,2501967872,371261440,639696896,908132352,1176567808,1445003264,1713438720,1981874176,2250309632,2518745088,388038656,656474112,924909568,1193345024,1461780480,1730215936,1998651392,2267086848,2535522304,288423936,556859392,825294848,1093730304,1362165760,1630601216,1899036672,2167472128,2435907584,305201152,573636608,842072064,1110507520,1378942976,1647378432,1915813888,2184249344,2452684800,321978368,590413824,858849280,1127284736,1395720192,1664155648,1932591104,2201026560,2469462016,338755584,607191040,875626496,1144061952,1412497408,1680932864,1949368320,2217803776,2486239232,355532800,623968256,892403712,1160839168,1429274624,1697710080,1966145536,2234580992,2503016448,372310016,640745472,909180928,1177616384,1446051840,1714487296,1982922752,2251358208,2519793664,389087232,657522688,925958144,1194393600,1462829056,1731264512,1999699968,2268135424,2536570880,289472512,557907968,826343424,1094778880,1363214336,1631649792,1900085248,2168520704,2436956160,306249728,574685184,843120640,1111556096,1379991552,1648427008,1916862464,2185297920,2453733376,323026944,591462400,859897856,1128333312,1396768768,1665204224,1933639680,2202075136,2470510592,339804160,608239616,876675072,1145110528,1413545984,1681981440,1950416896,2218852352,2487287808,356581376,625016832,893452288,1161887744,1430323200,1698758656,1967194112,2235629568,2504065024,373358592,641794048,910229504,1178664960,1447100416,1715535872,1983971328,2252406784,2520842240,390135808,658571264,927006720,1195442176,1463877632,1732313088,2000748544,2269184000,2537619456,290521088,558956544,827392000,1095827456,1364262912,1632698368,1901133824,2169569280,2438004736,307298304,575733760,844169216,1112604672,1381040128,1649475584,1917911040,2186346496,2454781952,324075520,592510976,860946432,1129381888,1397817344,1666252800,1934688256,2203123712,2471559168,340852736,609288192,877723648,1146159104,1414594560,1683030016,1951465472,2219900928,2488336384,357629952,626065408,894500864,1162936320,1431371776,1699807232,1968242688,2236678144,2505113600,374407168,642842624,911278080,1179713536,1448148992,1716584448,1985019904,2253455360,2521890816,391184384,659619840,928055296,1196490752,1464926208,1733361664,2001797120,2270232576,2538668032,286392320,554827776,823263232,1091698688,1360134144,1628569600,1897005056,2165440512,2433875968,303169536,571604992,840040448,1108475904,1376911360,1645346816,1913782272,2182217728,2450653184,319946752,588382208,856817664,1125253120,1393688576,1662124032,1930559488,2198994944,2467430400,336723968,605159424,873594880,1142030336,1410465792,1678901248,1947336704,2215772160,2484207616,353501184,621936640,890372096,1158807552,1427243008,1695678464,1964113920,2232549376,2500984832,370278400,638713856,907149312,1175584768,1444020224,1712455680,1980891136,2249326592,2517762048,387055616,655491072,923926528,1192361984,1460797440,1729232896,1997668352,2266103808,2534539264,287440896,555876352,824311808,1092747264,1361182720,1629618176,1898053632,2166489088,2434924544,304218112,572653568,841089024,1109524480,1377959936,1646395392,1914830848,2183266304,2451701760,320995328,589430784,857866240,1126301696,1394737152,1663172608,1931608064,2200043520,2468478976,337772544,606208000,874643456,1143078912,1411514368,1679949824,1948385280,2216820736,2485256192,354549760,622985216,891420672,1159856128,1428291584,1696727040,1965162496,2233597952,2502033408,371326976,639762432,908197888,1176633344,1445068800,1713504256,1981939712,2250375168,2518810624,388104192,656539648,924975104,1193410560,1461846016,1730281472,1998716928,2267152384,2535587840,288489472,556924928,825360384,1093795840,1362231296,1630666752,1899102208,2167537664,2435973120,305266688,573702144,842137600,1110573056,1379008512,1647443968,1915879424,2184314880,2452750336,322043904,590479360,858914816,1127350272,1395785728,1664221184,1932656640,2201092096,2469527552,338821120,607256576,875692032,1144127488,1412562944,1680998400,1949433856,2217869312,2486304768,355598336,624033792,892469248,1160904704,1429340160,1697775616,1966211072,2234646528,2503081984,372375552,640811008,909246464,1177681920,1446117376,1714552832,1982988288,2251423744,2519859200,389152768,657588224,926023680,1194459136,1462894592,1731330048,1999765504,2268200960,2536636416,289538048,557973504,826408960,1094844416,1363279872,1631715328,1900150784,2168586240,2437021696,306315264,574750720,843186176,1111621632,1380057088,1648492544,1916928000,2185363456,2453798912,323092480,591527936,859963392,1128398848,1396834304,1665269760,1933705216,2202140672,2470576128,339869696,608305152,876740608,1145176064,1413611520,1682046976,1950482432,2218917888,2487353344,356646912,625082368,893517824,1161953280,1430388736,1698824192,1967259648,2235695104,2504130560,373424128,641859584,910295040,1178730496,1447165952,1715601408,1984036864,2252472320,2520907776,390201344,658636800,927072256,1195507712,1463943168,1732378624,2000814080,2269249536,2537684992,290586624,559022080,827457536,1095892992,1364328448,1632763904,1901199360,2169634816,2438070272,307363840,575799296,844234752,1112670208,1381105664,1649541120,1917976576,2186412032,2454847488,324141056,592576512,861011968,1129447424,1397882880,1666318336,1934753792,2203189248,2471624704,340918272,609353728,877789184,1146224640,1414660096,1683095552,1951531008,2219966464,2488401920,357695488,626130944,894566400,1163001856,1431437312,1699872768,1968308224,2236743680,2505179136,374472704,642908160,911343616,1179779072,1448214528,1716649984,1985085440,2253520896,2521956352,391249920,659685376,928120832,1196556288,1464991744,1733427200,2001862656,2270298112,2538733568,286457856,554893312,823328768,1091764224,1360199680,1628635136,1897070592,2165506048,2433941504,303235072,571670528,840105984,1108541440,1376976896,1645412352,1913847808,2182283264,2450718720,320012288,588447744,856883200,1125318656,1393754112,1662189568,1930625024,2199060480,2467495936,336789504,605224960,873660416,1142095872,1410531328,1678966784,1947402240,2215837696,2484273152,353566720,622002176,890437632,1158873088,1427308544,1695744000,1964179456,2232614912,2501050368,370343936,638779392,907214848,1175650304,1444085760,1712521216,1980956672,2249392128,2517827584,387121152,655556608,923992064,1192427520,1460862976,1729298432,1997733888,2266169344,2534604800,287506432,555941888,824377344,1092812800,1361248256,1629683712,1898119168,2166554624,2434990080,304283648,572719104,841154560,1109590016,1378025472,1646460928,1914896384,2183331840,2451767296,321060864,589496320,857931776,1126367232,1394802688,1663238144,1931673600,2200109056,2468544512,337838080,606273536,874708992,1143144448,1411579904,1680015360,1948450816,2216886272,2485321728,354615296,623050752,891486208,1159921664,1428357120,1696792576,1965228032,2233663488,2502098944,371392512,639827968,908263424,1176698880,1445134336,1713569792,1982005248,2250440704,2518876160,388169728,656605184,925040640,1193476096,1461911552,1730347008,1998782464,2267217920,2535653376,288555008,556990464,825425920,1093861376,1362296832,1630732288,1899167744,2167603200,2436038656,305332224,573767680,842203136,1110638592,1379074048,1647509504,1915944960,2184380416,2452815872,322109440,590544896,858980352,1127415808,1395851264,1664286720,1932722176,2201157632,2469593088,338886656,607322112,875757568,1144193024,1412628480,1681063936,1949499392,2217934848,2486370304,355663872,624099328,892534784,1160970240,1429405696,1697841152,1966276608,2234712064,2503147520,372441088,640876544,909312000,1177747456,1446182912,1714618368,1983053824,2251489280,2519924736,389218304,657653760,926089216,1194524672,1462960128,1731395584,1999831040,2268266496,2536701952,289603584,558039040,826474496,1094909952,1363345408,1631780864,1900216320,2168651776,2437087232,306380800,574816256,843251712,1111687168,1380122624,1648558080,1916993536,2185428992,2453864448,323158016,591593472,860028928,1128464384,1396899840,1665335296,1933770752,2202206208,2470641664,339935232,608370688,876806144,1145241600,1413677056,1682112512,1950547968,2218983424,2487418880,356712448,625147904,893583360,1162018816,1430454272,1698889728,1967325184,2235760640,2504196096,373489664,641925120,910360576,1178796032,1447231488,1715666944,1984102400,2252537856,2520973312,390266880,658702336,927137792,1195573248,1464008704,1732444160,2000879616,2269315072,2537750528,290652160,559087616,827523072,1095958528,1364393984,1632829440,1901264896,2169700352,2438135808,307429376,575864832,844300288,1112735744,1381171200,1649606656,1918042112,2186477568,2454913024,324206592,592642048,861077504,1129512960,1397948416,1666383872,1934819328,2203254784,2471690240,340983808,609419264,877854720,1146290176,1414725632,1683161088,1951596544,2220032000,2488467456,357761024,626196480,894631936,1163067392,1431502848,1699938304,1968373760,2236809216,2505244672,374538240,642973696,911409152,1179844608,1448280064,1716715520,1985150976,2253586432,2522021888,391315456,659750912,928186368,1196621824,1465057280,1733492736,2001928192,2270363648,2538799104};

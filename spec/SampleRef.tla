----------------------------- MODULE SampleRef -----------------------------
\* Reference courses of the sample problems; written by tools/reference.py.
\* Robertson: << time, << y1, y2, y3 >>, << slopes >> >>
RobertsRef == <<
<<"1.00000000000000008e-05", <<"9.99999600000080480e-01", "3.99983920772645923e-07", "1.59992272376198409e-11">>, <<"-3.99999839999392245e-02", "3.99951843858329242e-02", "4.79961410629974875e-06">>>>,
<<"2.00000000000000016e-05", <<"9.99999200000321053e-01", "7.99871704644000965e-07", "1.27975351993829296e-10">>, <<"-3.99999679989892012e-02", "3.99807741566724981e-02", "1.91938423167029972e-05">>>>,
<<"4.00000000000000033e-05", <<"9.99998400001280707e-01", "1.59897550691861014e-06", "1.02321295113337758e-09">>, <<"-3.99999359836903032e-02", "3.99232343035385365e-02", "7.67016801517687782e-05">>>>,
<<"7.00000000000000074e-05", <<"9.99997200003923559e-01", "2.79452096647835902e-06", "5.47511138063648040e-09">>, <<"-3.99998878471538033e-02", "3.97656074241911905e-02", "2.34280422962614246e-04">>>>,
<<"1.00000000000000005e-04", <<"9.99996000008013808e-01", "3.98406846379266206e-06", "1.59235234980883520e-08">>, <<"-3.99998393659164730e-02", "3.95236553201908578e-02", "4.76184045725616646e-04">>>>,
<<"2.00000000000000010e-04", <<"9.99992000032400408e-01", "7.87437911732821330e-06", "1.25588483239435202e-07">>, <<"-3.99996701119827158e-02", "3.81394947174802795e-02", "1.86017539450243955e-03">>>>,
<<"4.00000000000000019e-04", <<"9.99984000139895413e-01", "1.50488444963976983e-05", "9.51015609333229070e-07">>, <<"-3.99992168887356378e-02", "3.32051852684328574e-02", "6.79403162030277862e-03">>>>,
<<"6.99999999999999993e-04", <<"9.99972000554960605e-01", "2.35542391074152353e-05", "4.44520593271274111e-06">>, <<"-3.99978329877642147e-02", "2.33537675898855372e-02", "1.66440653978786775e-02">>>>,
<<"1.00000000000000002e-03", <<"9.99960001563217959e-01", "2.91690349448809544e-05", "1.08294018379647153e-05">>, <<"-3.99952412305222826e-02", "1.44702632420516952e-02", "2.55249779884705874e-02">>>>,
<<"2.00000000000000004e-03", <<"9.99920013015750730e-01", "3.56070772840819455e-05", "4.43799069664695207e-05">>, <<"-3.99809981328578742e-02", "1.94507955142033534e-03", "3.80359185814375389e-02">>>>,
<<"4.00000000000000008e-03", <<"9.99840083434912708e-01", "3.64832953905978153e-05", "1.23433269697618021e-04">>, <<"-3.99485708130024528e-02", "1.76455362739802446e-05", "3.99309252767284725e-02">>>>,
<<"7.00000000000000015e-03", <<"9.99720310458722339e-01", "3.64725669393655362e-05", "2.43216974339298056e-04">>, <<"-3.99001049445750974e-02", "-7.33922981990126067e-06", "3.99074441743949987e-02">>>>,
<<"1.00000000000000002e-02", <<"9.99600682688293940e-01", "3.64504788784424460e-05", "3.62866832828361604e-04">>, <<"-3.98517606092747834e-02", "-7.36170475858222151e-06", "3.98591223140333656e-02">>>>,
<<"2.00000000000000004e-02", <<"9.99202967836719247e-01", "3.63770692096676405e-05", "7.60655094071290743e-04">>, <<"-3.96914146834515952e-02", "-7.32024509688539160e-06", "3.96987349285484806e-02">>>>,
<<"4.00000000000000008e-02", <<"9.98412317964824547e-01", "3.62314860486945235e-05", "1.55145054912693946e-03">>, <<"-3.93743791293336559e-02", "-7.23830956871757136e-06", "3.93816174389023735e-02">>>>,
<<"7.00000000000000067e-02", <<"9.97238112216766615e-01", "3.60161484902531630e-05", "2.72587163474330560e-03">>, <<"-3.89077705130478207e-02", "-7.11804911113916861e-06", "3.89148885621589599e-02">>>>,
<<"1.00000000000000006e-01", <<"9.96077747442457251e-01", "3.58043723504220795e-05", "3.88644818519263838e-03">>, <<"-3.84515915182657014e-02", "-7.00086396437232805e-06", "3.84585923822300738e-02">>>>,
<<"2.00000000000000011e-01", <<"9.92305945712043225e-01", "3.51230314509947379e-05", "7.65893125650615736e-03">>, <<"-3.70021889944490076e-02", "-6.63115477795434005e-06", "3.70088201492269619e-02">>>>,
<<"4.00000000000000022e-01", <<"9.85172113860989351e-01", "3.38639537897486150e-05", "1.47940221852218782e-02">>, <<"-3.43970437179908772e-02", "-5.97727023601141161e-06", "3.44030209882268886e-02">>>>,
<<"7.00000000000000067e-01", <<"9.75364721583719563e-01", "3.21964949265375529e-05", "2.46030819213552444e-02">>, <<"-3.10932588407677665e-02", "-5.16972586898228892e-06", "3.10984285666367488e-02">>>>,
<<"1.00000000000000000e+00", <<"9.66459737333001057e-01", "3.07462657857851315e-05", "3.35095164012143218e-02">>, <<"-2.83554645170714312e-02", "-4.52127603281157753e-06", "2.83599857931042428e-02">>>>,
<<"2.00000000000000000e+00", <<"9.41609494757041587e-01", "2.70178387127792633e-05", "5.83634874042468429e-02">>, <<"-2.18958268962490127e-02", "-3.08136504360498331e-06", "2.18989082612926177e-02">>>>,
<<"4.00000000000000000e+00", <<"9.05518678584255388e-01", "2.24047568756016125e-05", "9.44589166588701984e-02">>, <<"-1.50574565186232003e-02", "-1.73740102133237984e-06", "1.50591939196445326e-02">>>>,
<<"7.00000000000000000e+00", <<"8.68373043022283464e-01", "1.85497717367981251e-05", "1.31608407205981243e-01">>, <<"-1.03218625977460447e-02", "-9.58346873391677234e-07", "1.03228209446194364e-02">>>>,
<<"1.00000000000000000e+01", <<"8.41369923841465917e-01", "1.62339093799089967e-05", "1.58613842249155645e-01">>, <<"-7.90556953893889816e-03", "-6.24873714020687809e-07", "7.90619441265291885e-03">>>>,
<<"2.00000000000000000e+01", <<"7.82422199368424609e-01", "1.22992741651117003e-05", "2.17565501357411512e-01">>, <<"-4.53791047408912823e-03", "-2.53875568395102447e-07", "4.53816434965752333e-03">>>>,
<<"4.00000000000000000e+01", <<"7.15827068719422144e-01", "9.18553476456114904e-06", "2.84163745745814489e-01">>, <<"-2.53112309501594274e-03", "-9.83723129005867336e-08", "2.53122146732884332e-03">>>>,
<<"7.00000000000000000e+01", <<"6.56953695187424302e-01", "7.20625952484432929e-06", "3.43039098553051758e-01">>, <<"-1.55786009407755943e-03", "-4.51961047291931511e-08", "1.55790529018228863e-03">>>>,
<<"1.00000000000000000e+02", <<"6.17234882396117235e-01", "6.15359127463977346e-06", "3.82758964012608560e-01">>, <<"-1.13597308346321743e-03", "-2.74837964650120198e-08", "1.13600056725968244e-03">>>>,
<<"2.00000000000000000e+02", <<"5.35839131377716660e-01", "4.48758723812942463e-06", "4.64156381035045529e-01">>, <<"-6.04142734816581067e-04", "-1.04417780811801378e-08", "6.04153176594662247e-04">>>>,
<<"4.00000000000000000e+02", <<"4.50518668471097450e-01", "3.22290144167439209e-06", "5.49478108627461270e-01">>, <<"-3.11608854204267760e-04", "-3.95687813851269832e-09", "3.11612811082406273e-04">>>>,
<<"7.00000000000000000e+02", <<"3.80748806442911925e-01", "2.43079865451524514e-06", "6.19248762758433657e-01">>, <<"-1.77261664482170414e-04", "-1.79848162336587562e-09", "1.77263462963793780e-04">>>>,
<<"1.00000000000000000e+03", <<"3.36874530660734139e-01", "2.01370231826164851e-06", "6.63123455636947412e-01">>, <<"-1.21648827331401546e-04", "-1.08346576858703216e-09", "1.21649910797170133e-04">>>>,
<<"2.00000000000000000e+03", <<"2.55551522725489255e-01", "1.36559277874934629e-06", "7.44447111681732054e-01">>, <<"-5.59449102857569741e-05", "-3.98835413859596061e-10", "5.59453091211708337e-05">>>>,
<<"4.00000000000000000e+03", <<"1.83202257776722444e-01", "8.94237125277681904e-07", "8.16796847986152819e-01">>, <<"-2.39896582788067664e-05", "-1.42807940010236537e-10", "2.39898010867467766e-05">>>>,
<<"7.00000000000000000e+03", <<"1.33891398149926316e-01", "6.17040129488861641e-07", "8.66107984809944553e-01">>, <<"-1.14220950124003726e-05", "-6.06295885621343372e-11", "1.14221556419889347e-05">>>>,
<<"1.00000000000000000e+04", <<"1.07300428537802708e-01", "4.80016697257122319e-07", "8.92699091445500303e-01">>, <<"-6.91244631108051816e-06", "-3.45782885568789188e-11", "6.91248088936907504e-06">>>>,
<<"2.00000000000000000e+04", <<"6.65679515894481710e-02", "2.85000085444105107e-07", "9.33431763410467408e-01">>, <<"-2.43674029567781530e-06", "-1.11654166010341526e-11", "2.43675146109441634e-06">>>>,
<<"4.00000000000000000e+04", <<"3.89833770854834671e-02", "1.62176831591020236e-07", "9.61016460737686096e-01">>, <<"-7.89036326798511767e-07", "-3.41434855236013598e-12", "7.89039741147064127e-07">>>>,
<<"7.00000000000000000e+04", <<"2.44127761987709031e-02", "1.00063914523911141e-07", "9.75587123737315598e-01">>, <<"-3.00382348045538650e-07", "-1.26164991919041242e-12", "3.00383609695457840e-07">>>>,
<<"1.00000000000000000e+05", <<"1.78659211421014277e-02", "7.27475146843716861e-08", "9.82134006110385482e-01">>, <<"-1.58765368696474340e-07", "-6.58086111888657642e-13", "1.58766026782586229e-07">>>>,
<<"2.00000000000000000e+05", <<"9.50470942860875793e-03", "3.83792034929293721e-08", "9.90495252192188924e-01">>, <<"-4.41887177061637236e-08", "-1.80116386738610315e-13", "4.41888978225504622e-08">>>>,
<<"4.00000000000000000e+05", <<"4.93827452097976832e-03", "1.98499408795434943e-08", "9.95061705629080584e-01">>, <<"-1.18205568411266539e-08", "-4.77465145035946984e-14", "1.18206045876411575e-08">>>>,
<<"7.00000000000000000e+05", <<"2.87716213702391343e-03", "1.15414557066743237e-08", "9.97122826321521716e-01">>, <<"-3.99613991897140863e-09", "-1.60759023503982931e-14", "3.99615599487375903e-09">>>>,
<<"1.00000000000000000e+06", <<"2.03148392497339925e-03", "8.14227778335606755e-09", "9.97968507932750493e-01">>, <<"-1.98889263760583523e-09", "-7.98743417861496589e-15", "1.98890062504001385e-09">>>>,
<<"2.00000000000000000e+06", <<"1.02712036792047584e-03", "4.11265493866096617e-09", "9.98972875519425818e-01">>, <<"-5.07415885899625569e-10", "-2.03343514754166354e-15", "5.07417919334773111e-10">>>>,
<<"4.00000000000000000e+06", <<"5.16809601492509681e-04", "2.06829449122473565e-09", "9.99483188330214767e-01">>, <<"-1.28334749206445494e-10", "-5.13866472136420369e-16", "1.28335263072917631e-10">>>>,
<<"7.00000000000000000e+06", <<"2.96204803798496782e-04", "1.18516605463841935e-09", "9.99703794011037816e-01">>, <<"-4.21383886629395554e-11", "-1.68649076348253472e-16", "4.21385573120159036e-11">>>>,
<<"1.00000000000000000e+07", <<"2.07609343901627618e-04", "8.30607748506711308e-10", "9.99792389825493011e-01">>, <<"-2.06971941348792557e-11", "-8.28215023913322000e-17", "2.06972769563816470e-11">>>>,
<<"2.00000000000000000e+07", <<"1.03970789139478734e-04", "4.15925881892131014e-10", "9.99896028794936664e-01">>, <<"-5.18980941290839593e-12", "-2.07639240110840180e-17", "5.18983017683240702e-12">>>>,
<<"4.00000000000000000e+07", <<"5.20307184412019310e-05", "2.08133573189246100e-10", "9.99947969073427534e-01">>, <<"-1.29958225484241960e-12", "-5.27381327836263459e-18", "1.29958752865569796e-12">>>>,
<<"7.00000000000000000e+07", <<"2.97437903047163765e-05", "1.18978657641671743e-10", "9.99970256090718879e-01">>, <<"-4.24675930441834482e-13", "-1.69878458952986526e-18", "4.24677629226424012e-13">>>>,
<<"1.00000000000000000e+08", <<"2.08241751217944960e-05", "8.32984142990888524e-11", "9.99979175741582904e-01">>, <<"-2.08157942223632876e-13", "-8.32518646638115241e-19", "2.08158774742279514e-13">>>>,
<<"2.00000000000000000e+08", <<"1.04142489295325966e-05", "4.16574243446495140e-11", "9.99989585709415874e-01">>, <<"-5.20600298900576188e-14", "-2.00200848323905878e-19", "5.20602300909059427e-14">>>>,
<<"4.00000000000000000e+08", <<"5.20770210357316160e-06", "2.08309155941535546e-11", "9.99994792277068001e-01">>, <<"-1.30177592575669073e-14", "-5.20771555853911653e-20", "1.30178113347224927e-14">>>>,
<<"7.00000000000000000e+08", <<"2.97597965835910224e-06", "1.19039536343913265e-11", "9.99997024008439372e-01">>, <<"-4.25110637279486046e-15", "-1.69910972937827916e-20", "4.25112336389215424e-15">>>>,
<<"1.00000000000000000e+09", <<"2.08322947164670213e-06", "8.33293503775950388e-12", "9.99997916762196626e-01">>, <<"-2.08312588840461356e-15", "-8.30190098604872834e-21", "2.08313419030559961e-15">>>>,
<<"2.00000000000000000e+09", <<"1.04164129777416259e-06", "4.16656947910415091e-12", "9.99998958354536560e-01">>, <<"-5.20806955881464924e-16", "-2.08084460213255142e-21", "5.20809036726067057e-16">>>>,
<<"4.00000000000000000e+09", <<"5.20827661143521711e-07", "2.08331171660428371e-12", "9.99999479170255889e-01">>, <<"-1.30205113867265447e-16", "-5.17388955161948118e-22", "1.30205631256220609e-16">>>>,
<<"7.00000000000000000e+09", <<"2.97617607716732799e-07", "1.19047078092176835e-12", "9.99999702381202393e-01">>, <<"-4.25164531735988571e-17", "-1.67233255689665160e-22", "4.25166204068545467e-17">>>>,
<<"1.00000000000000000e+10", <<"2.08332847188294515e-07", "8.33331560280892963e-13", "9.99999791666319804e-01">>, <<"-2.08331591495237414e-17", "-8.55312818853962967e-23", "2.08332446808056268e-17">>>>,
<<"2.00000000000000000e+10", <<"1.04166738601008732e-07", "4.16666997286218638e-13", "9.99999895832844765e-01">>, <<"-5.20832122024421238e-18", "-2.03785811995845966e-23", "5.20834159882541196e-18">>>>,
<<"4.00000000000000000e+10", <<"5.20834517679912327e-08", "2.08333817792543050e-13", "9.99999947916339393e-01">>, <<"-1.30209767585391671e-18", "8.28677342075960415e-24", "1.30208938908049595e-18">>>>>>
\* when y3 reaches 0.01 and when y1 falls to 1e-4
RobertsEvents == <<"2.64019078187632816e-01", "2.07954968830266520e+07">>
\* slider-crank: << time, unknowns, accelerations >>
CrankRef == <<
<<"0.00000000000000000e+00", <<"1.57079632679489656e+00", "8.66025403784438597e-01", "-5.23598775598298927e-01", "0.00000000000000000e+00", "-0.00000000000000000e+00", "-0.00000000000000000e+00", "1.31028856829700269e+00", "-1.17017059221717656e+00", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.13397459621556140e-01", "2.56698729810778070e-01", "1.81498877766297565e-17">>>>,
<<"1.00000000000000006e-01", <<"1.56823310428730012e+00", "8.67307961945893435e-01", "-5.23596878973095814e-01", "-5.12318593199170350e-02", "2.56537537331023927e-02", "7.58166947234369343e-05", "1.29666722641064514e+00", "-1.16094163577578668e+00", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.11440026676001414e-01", "2.56851915749857107e-01", "2.27223004333274763e-03">>>>,
<<"2.00000000000000011e-01", <<"1.56055454614291866e+00", "8.71161344079051325e-01", "-5.23568495817612889e-01", "-1.02325338754723855e-01", "5.14624893420633917e-02", "6.05038275348995032e-04", "1.27892498497150875e+00", "-1.13921983475833755e+00", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.10597714973717198e-01", "2.59763098317933705e-01", "9.06360461781076723e-03">>>>,
<<"2.99999999999999989e-01", <<"1.54776929606837577e+00", "8.77614418922195161e-01", "-5.23445720823987659e-01", "-1.53379918756108069e-01", "7.76887447757235866e-02", "2.03877390047959564e-03", "1.25720886188091074e+00", "-1.10498319569093617e+00", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.10606413565261708e-01", "2.65139556270129917e-01", "2.03623365907615664e-02">>>>,
<<"4.00000000000000022e-01", <<"1.52987759921512767e+00", "8.86720560689774784e-01", "-5.23115569438606931e-01", "-2.04461864143295979e-01", "1.04557140073649177e-01", "4.82760265854651968e-03", "1.23184985148696535e+00", "-1.05819697597332518e+00", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.11068615936841830e-01", "2.72511298131322632e-01", "3.61625364581149855e-02">>>>,
<<"5.00000000000000000e-01", <<"1.50687525918782295e+00", "8.98552923805780890e-01", "-5.22420079378871249e-01", "-2.55591880086960377e-01", "1.32235205732417122e-01", "9.41975295652916489e-03", "1.20340485253450380e+00", "-9.98970428370584917e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.11475424836510761e-01", "2.81201082696397042e-01", "5.64132488322254544e-02">>>>,
<<"5.99999999999999978e-01", <<"1.47875869570144025e+00", "9.13197643779075419e-01", "-5.21156874643971313e-01", "-3.06735707834304150e-01", "1.60811051844547609e-01", "1.62534389417581700e-02", "1.17270267708322851e+00", "-9.27752264257648562e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.11244422558463918e-01", "2.90292975104960160e-01", "8.09535019750207835e-02">>>>,
<<"6.99999999999999956e-01", <<"1.44553071956433121e+00", "9.30744659883614434e-01", "-5.19080834791195378e-01", "-3.57799537346164709e-01", "1.90268310967786680e-01", "2.57423200161490777e-02", "1.14088202536366534e+00", "-8.45535823685302668e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.09778753424224407e-01", "2.98611489210633851e-01", "1.09441529824587380e-01">>>>,
<<"8.00000000000000044e-01", <<"1.40720643361660769e+00", "9.51275962629241856e-01", "-5.15907565752013797e-01", "-4.08632438837166712e-01", "2.20460096082534057e-01", "3.82541414668930851e-02", "1.10940697242414199e+00", "-7.54027747912834778e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.06547847627055958e-01", "3.04724998219969956e-01", "1.41291934917162465e-01">>>>,
<<"9.00000000000000022e-01", <<"1.36381845953405856e+00", "9.74851309958100987e-01", "-5.11319285025139569e-01", "-4.59037632705776688e-01", "2.51085015421305457e-01", "5.40842452446076427e-02", "1.08004692638524036e+00", "-6.55721442415825306e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.01181072072964473e-01", "3.06984910925056531e-01", "1.75639192717769843e-01">>>>,
<<"1.00000000000000000e+00", <<"1.31542057088179964e+00", "1.00149180723074416e+00", "-5.04973470642016142e-01", "-5.08792976909898997e-01", "2.81669094686997690e-01", "7.34275290141616632e-02", "1.05481524665533510e+00", "-5.53820726664007279e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.93554161280343573e-01", "3.03604302385793945e-01", "2.11345731594270947e-01">>>>,
<<"1.10000000000000009e+00", <<"1.26208889254757661e+00", "1.03116212980822164e+00", "-4.96514184626890787e-01", "-5.57678550841413934e-01", "3.11557217655657803e-01", "9.63539068330380721e-02", "1.03587335649959278e+00", "-4.51989573385012222e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.83839580439257455e-01", "2.92766969768467389e-01", "2.47064295292658997e-01">>>>,
<<"1.19999999999999996e+00", <<"1.20392018709352211e+00", "1.06375246023663084e+00", "-4.85585453313938098e-01", "-6.05506256327609571e-01", "3.39916121848187869e-01", "1.22792499197363639e-01", "1.02542066779234742e+00", "-3.53958550671676808e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.72492511567514484e-01", "2.72745041165243229e-01", "2.81347223935384028e-01">>>>,
<<"1.30000000000000004e+00", <<"1.14102738101996404e+00", "1.09906129292487575e+00", "-4.71845634833536864e-01", "-6.52144090110978181e-01", "3.65748441138460889e-01", "1.52528028984226877e-01", "1.02559709951921807e+00", "-2.63077264917234932e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.60157541698620443e-01", "2.41998033449113553e-01", "3.12775262682569333e-01">>>>,
<<"1.39999999999999991e+00", <<"1.07353325764291219e+00", "1.13678008083678805e+00", "-4.54981520096078174e-01", "-6.97527338518772577e-01", "3.87914878810331931e-01", "1.85209405732511073e-01", "1.03841770715085313e+00", "-1.81933671891347543e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.47503689570246888e-01", "1.99234813025587043e-01", "3.40065414641992136e-01">>>>,
<<"1.50000000000000000e+00", <<"1.00156394174801977e+00", "1.17648034638300025e+00", "-4.34721121424126666e-01", "-7.41650830767574765e-01", "4.05160748694386397e-01", "2.20366394416638051e-01", "1.06573760482077562e+00", "-1.12143942371443914e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.35016603816153924e-01", "1.43441847640531084e-01", "3.62119469003519878e-01">>>>,
<<"1.60000000000000009e+00", <<"9.25244221549279322e-01", "1.21760356499262756e+00", "-4.10844680949526808e-01", "-7.84539864334706127e-01", "4.16144834034450961e-01", "2.57427214275485372e-01", "1.10921716875619070e+00", "-5.43563569657056558e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.22786156724398510e-01", "7.39086317302699303e-02", "3.77992761440816838e-01">>>>,
<<"1.69999999999999996e+00", <<"8.44696803579253253e-01", "1.25945412065734907e+00", "-3.83194206156486472e-01", "-8.26201111292566126e-01", "4.19472807768411171e-01", "2.95729159486854354e-01", "1.17023287606856319e+00", "-8.44013200680293445e-03", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.10323275340729710e-01", "-9.69634028144339410e-03", "3.86789117365216262e-01">>>>,
<<"1.80000000000000004e+00", <<"7.60047312162296707e-01", "1.30119614630754432e+00", "-3.51682556443246808e-01", "-8.66557716646315646e-01", "4.13743400961168406e-01", "3.34516251394706976e-01", "1.24966644274352134e+00", "2.62213250826850951e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.96430525783706245e-01", "-1.07136216377877624e-01", "3.87513740940802320e-01">>>>,
<<"1.89999999999999991e+00", <<"6.71436308446580532e-01", "1.34185618829749509e+00", "-3.16303507516505211e-01", "-9.05375099683595752e-01", "3.97621507523857887e-01", "3.72922207235954539e-01", "1.34751072275819617e+00", "5.04287296377938232e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.79150441940470373e-01", "-2.17249570668872571e-01", "3.78937061383327056e-01">>>>,
<<"2.00000000000000000e+00", <<"5.79038812048833673e-01", "1.38033527196117878e+00", "-2.77144095738992902e-01", "-9.42187072785095170e-01", "3.69956161788786375e-01", "4.09943237195091403e-01", "1.46226619845334049e+00", "6.49399372177417444e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.55832737416977407e-01", "-3.37411915328323153e-01", "3.59540733143833502e-01">>>>,
<<"2.10000000000000009e+00", <<"4.83090593988137029e-01", "1.41543569775775802e+00", "-2.34399710528423788e-01", "-9.76237446446084012e-01", "3.29959088722826754e-01", "4.44413080285526008e-01", "1.59018735833944524e+00", "7.03758954500848799e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.23390809133587864e-01", "-4.62884751579737630e-01", "3.27631258645269097e-01">>>>,
<<"2.20000000000000018e+00", <<"3.83918603524392443e-01", "1.44590889801896783e+00", "-1.88390729227428499e-01", "-1.00646030491934169e+00", "2.77445665163488953e-01", "4.75001270281234400e-01", "1.72459263659072870e+00", "6.72893429892648109e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-2.78830947639756077e-01", "-5.86269918181957062e-01", "2.81701773902717001e-01">>>>,
<<"2.29999999999999982e+00", <<"2.81970208394567323e-01", "1.47052947429807146e+00", "-1.39577054960176777e-01", "-1.03152851908721965e+00", "2.13109184651989608e-01", "5.00261340454054015e-01", "1.85564962613988138e+00", "5.63878583407243020e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-2.20082033884209605e-01", "-6.97468955614911845e-01", "2.21063168399324522e-01">>>>,
<<"2.39999999999999991e+00", <<"1.77833067244561965e-01", "1.48819540471615785e+00", "-8.85643482916266267e-02", "-1.04999527338534082e+00", "1.38753453379857228e-01", "5.18751191323640337e-01", "1.97115669054689069e+00", "3.88433916903543411e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-1.46981713921101487e-01", "-7.84631119594898285e-01", "1.46618443380358843e-01">>>>,
<<"2.50000000000000000e+00", <<"7.22361054658351986e-02", "1.49804471814975382e+00", "-3.60944868076854344e-02", "-1.06052655386842209e+00", "5.73688117674024528e-02", "5.29225109941543259e-01", "2.05862588804815783e+00", "1.65495141901266761e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-6.20248252686437795e-02", "-8.36332653006735649e-01", "6.14516937595088186e-02">>>>,
<<"2.60000000000000009e+00", <<"-3.39754357234875390e-02", "1.49956719902957603e+00", "1.69852665053919424e-02", "-1.06217442754793634e+00", "-2.70567672943739408e-02", "5.30857292377117318e-01", "2.10829582717585673e+00", "-7.84113571683628732e-03", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"2.96501593777987911e-02", "-8.44551043043457850e-01", "-2.91964595564452936e-02">>>>,
<<"2.70000000000000018e+00", <<"-1.39890492805070099e-01", "1.49268242168043308e+00", "6.97739398422514007e-02", "-1.05459711606794349e+00", "-1.10015232128741119e-01", "5.23421117011391601e-01", "2.11588527887871525e+00", "-3.11858497491574391e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"1.21313589277205272e-01", "-8.07218873654561131e-01", "-1.18790749009381108e-01">>>>,
<<"2.79999999999999982e+00", <<"-2.44597968681271150e-01", "1.47775975016645433e+00", "1.21380978220175947e-01", "-1.03813281359188792e+00", "-1.87131809792478204e-01", "5.07349159329454458e-01", "2.08369318918329061e+00", "-5.03349193403500733e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"2.06408520429774756e-01", "-7.29007159370278823e-01", "-2.00937289031629995e-01">>>>,
<<"2.89999999999999991e+00", <<"-3.47250891524287286e-01", "1.45557287114968670e+00", "1.70989029670806425e-01", "-1.01369515634140317e+00", "-2.54783448137764601e-01", "4.83647827669071717e-01", "2.01948517369171832e+00", "-6.25932131541267062e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"2.80203221403738600e-01", "-6.19879885197679559e-01", "-2.70734621564630129e-01">>>>,
<<"3.00000000000000000e+00", <<"-4.47113052886067674e-01", "1.42720259832043173e+00", "2.17902388716713663e-01", "-9.82541595751824093e-01", "-3.10491269496300126e-01", "4.53707207700475457e-01", "1.93388296369212798e+00", "-6.59510974212299539e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"3.40599043202032437e-01", "-4.92238628104193943e-01", "-3.25453355891311413e-01">>>>,
<<"3.10000000000000009e+00", <<"-5.43580172414546925e-01", "1.39391527928952064e+00", "2.61574400516566496e-01", "-9.46012385124612498e-01", "-3.53016218038019858e-01", "4.19083799904757914e-01", "1.83761854290948579e+00", "-5.90443422919063043e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"3.87938104852109333e-01", "-3.58068073535236120e-01", "-3.64421316627651093e-01">>>>,
<<"3.20000000000000018e+00", <<"-6.36177183171902194e-01", "1.35704449525714432e+00", "3.01614707773931512e-01", "-9.05324509064405203e-01", "-3.82214575765664033e-01", "3.81322885240796383e-01", "1.73967290476658953e+00", "-4.09608620772376059e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.24182649106564336e-01", "-2.27087864512329485e-01", "-3.88415385752067799e-01">>>>,
<<"3.29999999999999982e+00", <<"-7.24539411416406764e-01", "1.31789438428488870e+00", "3.37782071346840906e-01", "-8.61457676688324847e-01", "-3.98770195779913683e-01", "3.41849016300139585e-01", "1.64654622358088987e+00", "-1.10561685164272169e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.51968948056383490e-01", "-1.06108317833377513e-01", "-3.98967560739837357e-01">>>>,
<<"3.39999999999999991e+00", <<"-8.08386837183038942e-01", "1.27767134495044732e+00", "3.69969482618287770e-01", "-8.15126502873508407e-01", "-4.03908868968754331e-01", "3.01918334879362593e-01", "1.56235575597457421e+00", "3.11130486104470826e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.73863654019754332e-01", "7.63006034579377657e-04", "-3.97849191481613629e-01">>>>,
<<"3.50000000000000000e+00", <<"-8.87498793022841959e-01", "1.23744246024510995e+00", "3.98186668812557432e-01", "-7.66812004093396227e-01", "-3.99155788484453100e-01", "2.62609910169354255e-01", "1.48931868964940062e+00", "8.57088923482610399e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.91923068144064612e-01", "9.15379744702708442e-02", "-3.86805379946534522e-01">>>>,
<<"3.60000000000000009e+00", <<"-9.61693542210929175e-01", "1.19811509474188149e+00", "4.22542692366458250e-01", "-7.16823229446646448e-01", "-3.86155147122240860e-01", "2.24832933362651172e-01", "1.42829028864241492e+00", "1.52423677253322620e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.07519580539536608e-01", "1.65729737547764960e-01", "-3.67489654359783868e-01">>>>,
<<"3.70000000000000018e+00", <<"-1.03081453771415754e+00", "1.16043161521132854e+00", "4.43229375769994771e-01", "-6.65366071975613260e-01", "-3.66545931964854688e-01", "1.89334221393930885e-01", "1.37919643144373660e+00", "2.30261508410277399e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.21358647388254770e-01", "2.23860726933026388e-01", "-3.41507467659017960e-01">>>>,
<<"3.79999999999999982e+00", <<"-1.09472325164211814e+00", "1.12497433657671086e+00", "4.60505188367685336e-01", "-6.12603881651481719e-01", "-3.41879007893052700e-01", "1.56699560498242296e-01", "1.34132585310024099e+00", "3.17383666284498489e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.33615123495416510e-01", "2.67126482557929701e-01", "-3.10483684835204055e-01">>>>,
<<"3.89999999999999991e+00", <<"-1.15329725992793231e+00", "1.09217729875305358e+00", "4.74678968535738544e-01", "-5.58700937496321992e-01", "-3.13561428902608408e-01", "1.27349641085982901e-01", "1.31351359624652542e+00", "4.11097219548010484e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.44130888698898141e-01", "2.97178468828252051e-01", "-2.76096385300208025e-01">>>>,
<<"4.00000000000000000e+00", <<"-1.20643164770314559e+00", "1.06234265575005415e+00", "4.86093163421010332e-01", "-5.03845205070848734e-01", "-2.82818813641309119e-01", "1.01535450371683822e-01", "1.29426689948593121e+00", "5.08022112470329246e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.52623626091683584e-01", "3.15971179459696216e-01", "-2.40052620469591166e-01">>>>,
<<"4.09999999999999964e+00", <<"-1.25404168403717931e+00", "1.03566011138186442e+00", "4.95106822663484991e-01", "-4.48251507251298642e-01", "-2.50671697322420228e-01", "7.93388212536596527e-02", "1.28187570717513744e+00", "6.04410021037474543e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.58863351977634260e-01", "3.25630085795140467e-01", "-2.04012825715738144e-01">>>>,
<<"4.20000000000000018e+00", <<"-1.29606502664922663e+00", "1.01222806461650405e+00", "5.02079078045158389e-01", "-3.92150007511621268e-01", "-2.17924976736402515e-01", "6.06819939406686576e-02", "1.27452786739558155e+00", "6.96534181290739185e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.62786010581791674e-01", "3.28320588664367585e-01", "-1.69491814033913113e-01">>>>,
<<"4.29999999999999982e+00", <<"-1.33246232982709234e+00", "9.92075156516309731e-01", "5.07354070145876745e-01", "-3.35767028389148570e-01", "-1.85170380770885240e-01", "4.53468153913136329e-02", "1.27042728201979749e+00", "7.81048460045191462e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.64533171823614288e-01", "3.26120330107490308e-01", "-1.37770359278518495e-01">>>>,
<<"4.40000000000000036e+00", <<"-1.36321585020453084e+00", "9.75180954287839463e-01", "5.11248184573212416e-01", "-2.79305264624744032e-01", "-1.52800964311233828e-01", "3.30011248049095068e-02", "1.26790091105578062e+00", "8.55234037914689438e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.64427497593990357e-01", "3.20909093955916713e-01", "-1.09842882455165491e-01">>>>,
<<"4.50000000000000000e+00", <<"-1.38832627582178181e+00", "9.61494683358767865e-01", "5.14040113345956007e-01", "-2.22928718287224964e-01", "-1.21035126756083217e-01", "2.32281128347454173e-02", "1.26548004377902767e+00", "9.17098986294033414e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.62907296878723984e-01", "3.14290177919629876e-01", "-8.64103686659962733e-02">>>>,
<<"4.59999999999999964e+00", <<"-1.40780841063772910e+00", "9.50951225901148223e-01", "5.15963817988776552e-01", "-1.66755114711176405e-01", "-8.99466442174229469e-02", "1.55543487840942730e-02", "1.26194889389431109e+00", "9.65344862547740656e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.60446454142423445e-01", "3.07548815263826214e-01", "-6.79119988019322440e-02">>>>,
<<"4.70000000000000018e+00", <<"-1.42168649789919921e+00", "9.43483966362252846e-01", "5.17204091422882928e-01", "-1.10856161400468028e-01", "-5.94971478370004969e-02", "9.47334517277111966e-03", "1.25636314513410552e+00", "9.99245997129321051e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.57480333965495567e-01", "3.01643445603268334e-01", "-5.45798065292937284e-02">>>>,
<<"4.79999999999999982e+00", <<"-1.42998991386548124e+00", "9.39034387577211138e-01", "5.17894186829412684e-01", "-5.52644039866092632e-02", "-2.95682643511335289e-02", "4.46324056019556555e-03", "1.24804781074516091e+00", "1.01849605008428967e+00", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.54349082209835586e-01", "2.97219127641800362e-01", "-4.64989200054036211e-02">>>>,
<<"4.90000000000000036e+00", <<"-1.43274979621810861e+00", "9.37558541045798499e-01", "5.18114922937388811e-01", "1.52834952580824246e-05", "8.16850857374944066e-06", "-1.21043358441823326e-06", "1.23658601053582529e+00", "1.02306847067019469e+00", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.51261698109598797e-01", "2.94630634686988635e-01", "-4.36592326526070509e-02">>>>,
<<"5.00000000000000000e+00", <<"-1.42999696764723727e+00", "9.39030613578260898e-01", "5.17894756489887031e-01", "5.49916105377560721e-02", "2.94222316477764922e-02", "-4.44098975895576044e-03", "1.22180874470576528e+00", "1.01312204005881656e+00", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.48279599406381157e-01", "2.93964832681215926e-01", "-4.59895279495689119e-02">>>>,
<<"5.09999999999999964e+00", <<"-1.42176132116696419e+00", "9.43443808834368292e-01", "5.17210483953499889e-01", "1.09672006000434530e-01", "5.88599748764443223e-02", "-9.36751776582727021e-03", "1.20379204757045422e+00", "9.88966687206307649e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.45317145972068040e-01", "2.95056060574139467e-01", "-5.33700300148465881e-02">>>>,
<<"5.20000000000000018e+00", <<"-1.40807266331235414e+00", "9.50808696286650656e-01", "5.15988446945260693e-01", "1.64048579477361317e-01", "8.84785715331176531e-02", "-1.52775163794167043e-02", "1.18286339510586691e+00", "9.51090991705893729e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.42157480785000812e-01", "2.97492970984249150e-01", "-6.56233706900084257e-02">>>>,
<<"5.29999999999999982e+00", <<"-1.38896285693842936e+00", "9.61149098502308119e-01", "5.14106328892860898e-01", "2.18086419583212010e-01", "1.18381835954531445e-01", "-2.26460168649913057e-02", "1.15961475666487690e+00", "9.00240852878672726e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.38483482340700426e-01", "3.00619776106703318e-01", "-8.24873475796966404e-02">>>>,
<<"5.40000000000000036e+00", <<"-1.36446895378440813e+00", "9.74495534764097115e-01", "5.11395809795525680e-01", "2.71715757077873765e-01", "1.48595848903717270e-01", "-3.19159967871079156e-02", "1.13491581015396381e+00", "8.37527453493773222e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.33924093655738452e-01", "3.03538498012129065e-01", "-1.03576143124848613e-01">>>>,
<<"5.50000000000000000e+00", <<"-1.33463685454761327e+00", "9.90876250909806688e-01", "5.07646458538612566e-01", "3.24829486070357054e-01", "1.79045218797977135e-01", "-4.34839655035263867e-02", "1.10991831295033982e+00", "7.64531901587425455e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.28114651370768406e-01", "3.05120952195767958e-01", "-1.28340001687715810e-01">>>>,
<<"5.59999999999999964e+00", <<"-1.29952489773536262e+00", "1.01030596236781167e+00", "5.02611255401494317e-01", "3.77287209485785979e-01", "2.09531387648098866e-01", "-5.76819588178134543e-02", "1.08604245882809525e+00", "6.83366480872570570e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.20765645170565561e-01", "3.04038866163949428e-01", "-1.56035954374971753e-01">>>>,
<<"5.70000000000000018e+00", <<"-1.25920669932235607e+00", "1.03277261573233403e+00", "4.96014026671076913e-01", "4.28926127521967349e-01", "2.39715080481297388e-01", "-7.47577005700535008e-02", "1.06493919377226853e+00", "5.96653448911661610e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.11728383164004375e-01", "2.98816958120915632e-01", "-1.85722379339829491e-01">>>>,
<<"5.79999999999999982e+00", <<"-1.21377260080557536e+00", "1.05822269822273540e+00", "4.87558838255370441e-01", "4.79577648595285011e-01", "2.69105168611437295e-01", "-9.48558065383508370e-02", "1.04842888427333492e+00", "5.07396942120023509e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"5.01040669508507563e-01", "2.87907182309578569e-01", "-2.16286139572723912e-01">>>>,
<<"5.90000000000000036e+00", <<"-1.16332928443155592e+00", "1.08654582952389656e+00", "4.76941076931115759e-01", "5.29086795168818513e-01", "2.97055651406759824e-01", "-1.18003371274841562e-01", "1.03842452853538325e+00", "4.18752434995173395e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.88934181312587701e-01", "2.69774730999288614e-01", "-2.46502119786277230e-01">>>>,
<<"6.00000000000000000e+00", <<"-1.10799749307717255e+00", "1.11755948386884807e+00", "4.63859633931470394e-01", "5.77329843829283429e-01", "3.22771237502198438e-01", "-1.44102677264970586e-01", "1.03685308684539756e+00", "3.33733738441234606e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.75790381784878480e-01", "2.42981552469079098e-01", "-2.75113151806208323e-01">>>>,
<<"6.09999999999999964e+00", <<"-1.04790829724025403e+00", "1.15099466686004304e+00", "4.48029410385957949e-01", "6.24224851594049945e-01", "3.45320607717493178e-01", "-1.72932020209321025e-01", "1.04558735988740414e+00", "2.54924835616819001e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.62043185101284393e-01", "2.06255002823827610e-01", "-3.00908168936997789e-01">>>>,
<<"6.20000000000000018e+00", <<"-9.83198872532334289e-01", "1.18648323136909228e+00", "4.29193384701620662e-01", "6.69730225176962790e-01", "3.63655643008170049e-01", "-2.04153189376502398e-01", "1.06639123045882034e+00", "1.84268381339937615e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.48040132297181704e-01", "1.58539332352548606e-01", "-3.22773134490597413e-01">>>>,
<<"6.29999999999999982e+00", <<"-9.14009157435156538e-01", "1.22354735874743636e+00", "4.07133748985647304e-01", "7.13828217476255356e-01", "3.76635439734964828e-01", "-2.37321827846133232e-01", "1.10086492270044123e+00", "1.22980015200218465e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.33883880140340406e-01", "9.90436780583581200e-02", "-3.39695501546518841e-01">>>>,
<<"6.40000000000000036e+00", <<"-8.40480955288436249e-01", "1.26159171063847753e+00", "3.81682074243875513e-01", "7.56492637388418987e-01", "3.83056147520165535e-01", "-2.71895633600126141e-01", "1.15035935895289465e+00", "7.15974525277916080e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.19279109344121548e-01", "2.73167119677838743e-02", "-3.50717191768547154e-01">>>>,
<<"6.50000000000000000e+00", <<"-7.62760991747710504e-01", "1.29989903247253524e+00", "3.52728963694576181e-01", "7.97642516006691671e-01", "3.81691291696694246e-01", "-3.07235750259582219e-01", "1.21581595185931568e+00", "3.01333692466467067e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.03408549759332657e-01", "-5.66111139439304523e-02", "-3.54849126856143116e-01">>>>,
<<"6.59999999999999964e+00", <<"-6.81009147849369612e-01", "1.33763066522769569e+00", "3.20234022845317268e-01", "8.37085810893992033e-01", "3.71351415155598719e-01", "-3.42598915149473049e-01", "1.29748666129390422e+00", "-1.72407305724283635e-03", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"3.84862096081993288e-01", "-1.51977701485551536e-01", "-3.50978481923037378e-01">>>>,
<<"6.70000000000000018e+00", <<"-5.95412551065032103e-01", "1.37383448188338675e+00", "2.84237033840745945e-01", "8.74459958901339762e-01", "3.50975067597701362e-01", "-3.77121897577464615e-01", "1.39450725216770000e+00", "-2.44254696719807887e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"3.61651231411243779e-01", "-2.56912026908244107e-01", "-3.37816482025257159e-01">>>>,
<<"6.79999999999999982e+00", <<"-5.06205339766655049e-01", "1.40746399724369775e+00", "2.44870804727445990e-01", "9.09180077654739072e-01", "3.19762914567036260e-01", "-4.09805256519569061e-01", "1.50434710052836151e+00", "-3.84434925830664589e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"3.31357027839735974e-01", "-3.67960556433728492e-01", "-3.13947922593604323e-01">>>>,
<<"6.90000000000000036e+00", <<"-4.13692570532800952e-01", "1.43741328577473881e+00", "2.02375144571796117e-01", "9.40411122131392108e-01", "2.77359373688571886e-01", "-4.39509820755945746e-01", "1.62225440302663637e+00", "-4.42627212028522884e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"2.91470720011786033e-01", "-4.79640732758291666e-01", "-2.78045555787269194e-01">>>>,
<<"7.00000000000000000e+00", <<"-3.18274830266824904e-01", "1.46257196555326097e+00", "1.57109789545173933e-01", "9.67085452451132976e-01", "2.24067757020607133e-01", "-4.64984533041682357e-01", "1.74094899754862786e+00", "-4.24876232927423950e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"2.39961982890830844e-01", "-5.84268858835561788e-01", "-2.29283720077750802e-01">>>>,
<<"7.09999999999999964e+00", <<"-2.20467915019110755e-01", "1.48190168043628190e+00", "1.09562181663090605e-01", "9.87986813818770848e-01", "1.61054859216662211e-01", "-4.84944102914218966e-01", "1.85092278809268240e+00", "-3.40406093604414331e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"1.76017275628593706e-01", "-6.72401057919154499e-01", "-1.67902614983397508e-01">>>>,
<<"7.20000000000000018e+00", <<"-1.20910374821682404e-01", "1.49452943720918041e+00", "6.03446099704005867e-02", "1.00190826733598604e+00", "9.04687362844995152e-02", "-4.98203610514188211e-01", "1.94165301283075831e+00", "-2.03704154455184999e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"1.00729366091969683e-01", "-7.34152099577598416e-01", "-9.57407721970454928e-02">>>>,
<<"7.29999999999999982e+00", <<"-2.03523364923012123e-02", "1.49984467778267017e+00", "1.01756413390114726e-02", "1.00786189676905602e+00", "1.53823997626455749e-02", "-5.03852668606727838e-01", "2.00368430301844036e+00", "-3.55262137054423955e-03", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"1.73792805972498333e-02", "-7.61297841791098051e-01", "-1.64415632940360448e-02">>>>,
<<"7.40000000000000036e+00", <<"8.03769444009112960e-02", "1.49757961202560907e+00", "-4.01560046401205836e-02", "1.00528247965406159e+00", "-6.04870006984548347e-02", "-5.01422687562375735e-01", "2.03096474974519481e+00", "1.38160444690689343e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-6.89982844955797092e-02", "-7.49511055408771720e-01", "6.49170622818636550e-02">>>>,
<<"7.50000000000000000e+00", <<"1.80418466693986534e-01", "1.48785131582406693e+00", "-8.98414419825012828e-02", "9.94150755119728280e-01", "-1.33247529823901562e-01", "-4.90987358414735731e-01", "2.02242864504534081e+00", "2.89290374321677125e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-1.52747496132106558e-01", "-6.99730538045423400e-01", "1.42755117159541256e-01">>>>,
<<"7.59999999999999964e+00", <<"2.78938858787451782e-01", "1.47115252792053930e+00", "-1.38106446687051798e-01", "9.74985716051540607e-01", "-1.99362475577383291e-01", "-4.73155529518177798e-01", "1.98205062397221221e+00", "3.91622016380232738e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-2.28977598362660906e-01", "-6.17945650143790215e-01", "2.12129504558510179e-01">>>>,
<<"7.70000000000000018e+00", <<"3.75178412943927508e-01", "1.44829320205107237e+00", "-1.84260161255261901e-01", "9.48711540328989411e-01", "-2.56080472799123160e-01", "-4.48960627531438283e-01", "1.91740222949626204e+00", "4.23738312836944644e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-2.94591284775305995e-01", "-5.13508594122236484e-01", "2.69590142749143891e-01">>>>,
<<"7.79999999999999982e+00", <<"4.68481808414432210e-01", "1.42030895270745106e+00", "-2.27729364495932979e-01", "9.16456635996464763e-01", "-3.01657115115685492e-01", "-4.19692237235360199e-01", "1.83749879276325911e+00", "3.70104733573931796e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.48588909006233516e-01", "-3.96824711559141896e-01", "3.13460655953829548e-01">>>>,
<<"7.90000000000000036e+00", <<"5.58308422847260122e-01", "1.38835866904434524e+00", "-2.68075452112003842e-01", "8.79357501966441024e-01", "-3.35355701600038414e-01", "-3.86727567595534949e-01", "1.75087619491239788e+00", "2.20410955772528498e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.91708964631963696e-01", "-2.77377678634551206e-01", "3.43593015685764780e-01">>>>,
<<"8.00000000000000000e+00", <<"6.44225539481453668e-01", "1.35363061452685529e+00", "-3.04996349857491023e-01", "8.38418337212712084e-01", "-3.57291074714795043e-01", "-3.51402966724770560e-01", "1.66443347233761374e+00", "-3.17691287090175701e-03", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.25735068688783969e-01", "-1.62603242243643753e-01", "3.60862197848499711e-01">>>>,
<<"8.09999999999999964e+00", <<"7.25891097048413036e-01", "1.31726829893340924e+00", "-3.38318185151464002e-01", "7.94442258177774585e-01", "-3.68204317237424028e-01", "-3.14937423591893084e-01", "1.58306516746893222e+00", "-3.89954771247602930e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.52801860854086247e-01", "-5.75971583169248569e-02", "3.66667718747451077e-01">>>>,
<<"8.19999999999999929e+00", <<"8.03032768918331197e-01", "1.28031930404457173e+00", "-3.67981581163879912e-01", "7.48023539979364438e-01", "-3.69237905945018874e-01", "-2.78398945135505282e-01", "1.50981781682509952e+00", "-8.54820354162985352e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.74885973106584092e-01", "3.46414841251241057e-02", "3.62587271283988488e-01">>>>,
<<"8.30000000000000071e+00", <<"8.75428429913431616e-01", "1.24370490204278861e+00", "-3.94026020836047930e-01", "6.99579322352530508e-01", "-3.61748251518569819e-01", "-2.42696649480778154e-01", "1.44626961404976950e+00", "-1.42335428987539453e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.93524101223263179e-01", "1.12752060688121186e-01", "3.50204928732032184e-01">>>>,
<<"8.40000000000000036e+00", <<"9.42890862641571847e-01", "1.20820606222811122e+00", "-4.16574039868868762e-01", "6.49399506896562007e-01", "-3.47165388532520713e-01", "-2.08583116099033655e-01", "1.39292729956808103e+00", "-2.08753618102704097e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.09722003296665949e-01", "1.76552363584123739e-01", "3.31067238142488063e-01">>>>,
<<"8.50000000000000000e+00", <<"1.00525766284317020e+00", "1.17446132171065920e+00", "-4.35815743430475855e-01", "5.97698629334408760e-01", "-3.26894454889246844e-01", "-1.76657472259680509e-01", "1.34954630400201347e+00", "-2.83315174087454935e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.23996245498327129e-01", "2.26670262587280180e-01", "3.06701783015845664e-01">>>>,
<<"8.59999999999999964e+00", <<"1.06238597181812522e+00", "1.14297284505394448e+00", "-4.51993507380738124e-01", "5.44659226731583956e-01", "-3.02248690184949376e-01", "-1.47365881616669608e-01", "1.31535858354152246e+00", "-3.63935026507103854e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.36494228913607651e-01", "2.64279339023980042e-01", "2.78643046413487527e-01">>>>,
<<"8.69999999999999929e+00", <<"1.11415087358946119e+00", "1.11411800606820144e+00", "-4.65386633075965894e-01", "4.90461222525820084e-01", "-2.74404696878395860e-01", "-1.21000565164340074e-01", "1.28923107886299038e+00", "-4.47933194235752896e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.47146895626698382e-01", "2.90912266542106779e-01", "2.48432403657514761e-01">>>>,
<<"8.80000000000000071e+00", <<"1.16044596107564257e+00", "1.08816459664892862e+00", "-4.76295963536726485e-01", "4.35296005151168341e-01", "-2.44373909707027798e-01", "-9.77006023305617421e-02", "1.26978657698727959e+00", "-5.32218766793541631e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.55816573059898289e-01", "3.08318079541769818e-01", "2.17582753552621300e-01">>>>,
<<"8.90000000000000036e+00", <<"1.20118461665078624e+00", "1.06528821473811042e+00", "-4.85028806293774650e-01", "3.79367195028748605e-01", "-2.12987224683195309e-01", "-7.74576958925032588e-02", "1.25551065358489722e+00", "-6.13552874045600993e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.62411555687524434e-01", "3.18338851387645227e-01", "1.87517376654883688e-01">>>>,
<<"9.00000000000000000e+00", <<"1.23630087474142947e+00", "1.04559059026118550e+00", "-4.91884757339344447e-01", "3.22882344194073134e-01", "-1.80891451937833847e-01", "-6.01285277327528733e-02", "1.24485433352919683e+00", "-6.88829514671717602e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.66951379124988164e-01", "3.22796097309127172e-01", "1.59502877451663222e-01">>>>,
<<"9.09999999999999964e+00", <<"1.26574921511950422e+00", "1.02911771524573070e+00", "-4.97143079758303963e-01", "2.66040705676589162e-01", "-1.48556581236529539e-01", "-4.54532596876398576e-02", "1.23633029290285790e+00", "-7.55312022072954115e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.69580999428267232e-01", "3.23389140092541438e-01", "1.34596209536108707e-01">>>>,
<<"9.19999999999999929e+00", <<"1.28950313616966583e+00", "1.01587676810921601e+00", "-5.01052156356687206e-01", "2.09021743447918185e-01", "-1.16292312372835147e-01", "-3.30780686541136820e-02", "1.22859508675678475e+00", "-8.10783981558091726e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.70544294422652531e-01", "3.21612685375024743e-01", "1.13618155368812424e-01">>>>,
<<"9.30000000000000071e+00", <<"1.30755275861783660e+00", "1.00585101271178146e+00", "-5.03821280067296318e-01", "1.51977625237081942e-01", "-8.42716138543523341e-02", "-2.25788933945781853e-02", "1.22051105852464570e+00", "-8.53604873895240979e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.70133954096805895e-01", "3.18699242046639741e-01", "9.71550730512435040e-02">>>>,
<<"9.40000000000000036e+00", <<"1.31990194611883438e+00", "9.99012096813049699e-01", "-5.05614770653216694e-01", "9.50311689833972517e-02", "-5.25587516504352065e-02", "-1.34838572193205948e-02", "1.21118640282274859e+00", "-8.82688648617908855e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.68635173375472869e-01", "3.15586924595944174e-01", "8.55819580671026980e-02">>>>,
<<"9.50000000000000000e+00", <<"1.32656549455402129e+00", "9.95329424137748275e-01", "-5.06548196754604385e-01", "3.82791489536082469e-02", "-2.11394386818230112e-02", "-5.29278639693308000e-03", "1.19999682065531199e+00", "-8.97438999055006459e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.66276548092249588e-01", "3.12908186616725370e-01", "7.90954541028352220e-02">>>>,
<<"9.59999999999999964e+00", <<"1.32756687447297428e+00", "9.94776481385782896e-01", "-5.06686382775561328e-01", "-1.82002018339618120e-02", "1.00486448590556901e-02", "2.50658678883098436e-03", "1.18659499787035605e+00", "-8.97676943649894699e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.63196153647078757e-01", "3.10992439007224730e-01", "7.77454365294740352e-02">>>>,
<<"9.69999999999999929e+00", <<"1.32293686313242720e+00", "9.97334140659548729e-01", "-5.06042891835047248e-01", "-7.43372126533380084e-02", "4.10859985295240551e-02", "1.04251406776827340e-02", "1.17091411716146254e+00", "-8.83588097886367163e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.59426210143070368e-01", "3.09875813244000875e-01", "8.14567616062900901e-02">>>>,
<<"9.80000000000000071e+00", <<"1.31271321911901628e+00", "1.00299103135413703e+00", "-5.04580770704147974e-01", "-1.30060220912463942e-01", "7.20425910218841503e-02", "1.89603745172541305e-02", "1.15316937559023280e+00", "-8.55703716165134853e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.54896836002819582e-01", "3.09313813221756551e-01", "9.00370911167381466e-02">>>>,
<<"9.90000000000000036e+00", <<"1.29694136296851004e+00", "1.01174110736634026e+00", "-5.02214478102581352e-01", "-1.85286306109880533e-01", "1.02950510896724801e-01", "2.85845050157206501e-02", "1.13385814409334529e+00", "-8.14915053252320831e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.49457764563332840e-01", "3.08796046775122013e-01", "1.03171227514264940e-01">>>>,
<<"1.00000000000000000e+01", <<"1.27567584865024752e+00", "1.02357855897983496e+00", "-4.98813049182500134e-01", "-2.39914997195987995e-01", "1.33778283215770372e-01", "3.97314959913186161e-02", "1.11375615826305197e+00", "-7.62507275106463878e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.42915545115354559e-01", "3.07565420639145326e-01", "1.20406500519968915e-01">>>>,
<<"1.00999999999999996e+01", <<"1.24898225760339288e+00", "1.03849026502346331e+00", "-4.94204635817408644e-01", "-2.93826298240322470e-01", "1.64407503966956414e-01", "5.27824920267088923e-02", "1.09390504706388891e+00", "-7.00188989458150779e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.35081736822895504e-01", "3.04646068440901197e-01", "1.41136946545815656e-01">>>>,
<<"1.01999999999999993e+01", <<"1.21693903960190819e+00", "1.05644606807891073e+00", "-4.88182573010033816e-01", "-3.46883785675788758e-01", "1.94612880792616905e-01", "6.80499982752589411e-02", "1.07558644006466242e+00", "-6.30088861238156106e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.25824613473294566e-01", "2.98884085499573848e-01", "1.64595624866217566e-01">>>>,
<<"1.03000000000000007e+01", <<"1.17963879245167647e+00", "1.07738728145750495e+00", "-4.80513041084585701e-01", "-3.98942613538500301e-01", "2.24047068240962710e-01", "8.57620624368357481e-02", "1.06028019827381415e+00", "-5.54694434882642140e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.15113577660978539e-01", "2.89002626876951885e-01", "1.89863514004586315e-01">>>>,
<<"1.04000000000000004e+01", <<"1.13718854724377394e+00", "1.10121397675543098e+00", "-4.70944230913172612e-01", "-4.49861060700215087e-01", "2.52231641281192631e-01", "1.06048383636955776e-01", "1.04960842535242183e+00", "-4.76721672243131334e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-5.03043405334440363e-01", "2.73668765629266453e-01", "2.15899383270310108e-01">>>>,
<<"1.05000000000000000e+01", <<"1.08970882679045888e+00", "1.12777171494501838e+00", "-4.59216715436274403e-01", "-4.99512984522190950e-01", "2.78555078686424096e-01", "1.28930389122453276e-01", "1.04527110869245710e+00", "-3.98924812368323556e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.89826448888276977e-01", "2.51565494491821695e-01", "2.41588217934221888e-01">>>>,
<<"1.05999999999999996e+01", <<"1.03733156103641799e+00", "1.15683843413603293e+00", "-4.45074551732165369e-01", "-5.47797577675728009e-01", "3.02277864288274356e-01", "1.54316689145007291e-01", "1.04898099598170447e+00", "-3.23878372101999157e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.75745980396017176e-01", "2.21460854806141805e-01", "2.65798100928100967e-01">>>>,
<<"1.06999999999999993e+01", <<"9.80197324892016164e-01", "1.18811218109113481e+00", "-4.28276558020552811e-01", "-5.94642535544840367e-01", "3.22544130840427878e-01", "1.82004004837715477e-01", "1.06240243697157410e+00", "-2.53777160760259135e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.61072044809605452e-01", "1.82269407062644467e-01", "2.87429971597950085e-01">>>>,
<<"1.08000000000000007e+01", <<"9.18452731492345187e-01", "1.22120030386599376e+00", "-4.08607281639991660e-01", "-6.39997320774667200e-01", "3.38399163735188857e-01", "2.11682033360916400e-01", "1.08709086842661318e+00", "-1.90298867881729783e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.45949847457156323e-01", "1.33109397772795401e-01", "3.05444231489793827e-01">>>>,
<<"1.09000000000000004e+01", <<"8.52249083284485676e-01", "1.25561068927548547e+00", "-3.85887400771370626e-01", "-6.83814554972736577e-01", "3.48812959127417554e-01", "2.42939346638639947e-01", "1.12441815216373819e+00", "-1.34556564554724561e-01", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.30276954820531132e-01", "7.33700236348102941e-02", "3.18853862232190366e-01">>>>,
<<"1.10000000000000000e+01", <<"7.81743492885524471e-01", "1.29074573854595265e+00", "-3.59983628489032814e-01", "-7.26019364477526241e-01", "3.52712006194505545e-01", "2.75266891163859606e-01", "1.17545774489988886e+00", "-8.71422137862332136e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-4.13588486142932421e-01", "2.81338272988188032e-03", "3.26684478116829824e-01">>>>,
<<"1.10999999999999996e+01", <<"7.07103604654532036e-01", "1.32590012549200420e+00", "-3.30818507027246578e-01", "-7.66468497420460970e-01", "3.49024222535509021e-01", "3.08056360998914702e-01", "1.24079746459651874e+00", "-4.82372427371426521e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.94970990776472963e-01", "-7.82596386102754338e-02", "3.27915243322824290e-01">>>>,
<<"1.11999999999999993e+01", <<"6.28516757952929273e-01", "1.36026401584973522e+00", "-2.98380659676704907e-01", "-8.04903258005245537e-01", "3.36744694237606390e-01", "3.40592816943210364e-01", "1.32025238113868970e+00", "-1.77502264032909501e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.73029579092373775e-01", "-1.68756736182360617e-01", "3.21428694907654189e-01">>>>,
<<"1.13000000000000007e+01", <<"5.46203893354197945e-01", "1.39293427349532961e+00", "-2.62735967851625341e-01", "-8.40903148219379726e-01", "3.15031099413226101e-01", "3.72044390842522554e-01", "1.41247416825435224e+00", "4.56282402724316177e-03", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.45941330075786535e-01", "-2.66456854708630231e-01", "3.06010321181437894e-01">>>>,
<<"1.14000000000000004e+01", <<"4.60437632000627040e-01", "1.42293698360038956e+00", "-2.24039636637146850e-01", "-8.73850906270723260e-01", "2.83335166274557460e-01", "4.01456448985588688e-01", "1.51450556903902300e+00", "1.90347177919065087e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-3.11637268059748895e-01", "-3.67641643976496513e-01", "2.80446287410949235e-01">>>>,
<<"1.15000000000000000e+01", <<"3.71562674631398915e-01", "1.44926486763975415e+00", "-1.82548136044572984e-01", "-9.02923872185320442e-01", "2.41567377884564144e-01", "4.27762245230907834e-01", "1.62141278829256219e+00", "2.61051468156932309e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-2.68151575856520941e-01", "-4.66828911054721185e-01", "2.43760402535408760e-01">>>>,
<<"1.15999999999999996e+01", <<"2.80015026048427484e-01", "1.47093207123719827e+00", "-1.38628643485716824e-01", "-9.27128921562953012e-01", "1.90274390278562744e-01", "4.49824645971799664e-01", "1.72622349217688043e+00", "2.64220313673032593e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-2.14137756754754133e-01", "-5.56826722934760987e-01", "1.95593907389696064e-01">>>>,
<<"1.16999999999999993e+01", <<"1.86334957400071721e-01", "1.48704557373342161e+00", "-9.27622503795403480e-02", "-9.45394082137792857e-01", "1.30784603050499909e-01", "4.66520293631067617e-01", "1.82043709998314540e+00", "2.09927693066364641e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-1.49461047689480597e-01", "-6.29352188375105981e-01", "1.36653762996987505e-01">>>>,
<<"1.18000000000000007e+01", <<"9.11679592357975827e-02", "1.49688692799982093e+00", "-4.55365955875343259e-02", "-9.56714895828958189e-01", "6.52577983205167023e-02", "4.76865191344403028e-01", "1.89525590942879063e+00", "1.13141363348667010e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"-7.56572167946967383e-02", "-6.76328272588959556e-01", "6.90570297438665437e-02">>>>,
<<"1.19000000000000004e+01", <<"-4.75066901790148315e-03", "1.49999153670681107e+00", "2.37532780786844401e-03", "-9.60328549913973317e-01", "-3.42162979352957780e-03", "4.80160211163020212e-01", "1.94336027990439275e+00", "-6.07047634713086333e-04", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"4.01364038673297958e-03", "-6.91645233361033451e-01", "-3.64976613768876364e-03">>>>,
<<"1.20000000000000000e+01", <<"-1.00627983849009145e-01", "1.49620835864688839e+00", "5.02502667984012288e-02", "-9.55865219310070180e-01", "-7.19271525162110126e-02", "4.76115871233634746e-01", "1.96064976842081395e+00", "-1.23971258656027754e-02", "0.00000000000000000e+00", "0.00000000000000000e+00">>, <<"8.50850474389341360e-02", "-6.72790371486152727e-01", "-7.69314262576013264e-02">>>>>>
=============================================================================

// generated by tools/gen_tables.py with mpmath 1.3.0; do not edit
#pragma once
namespace ref {
static const __float128 ZETA_POS[181] = { // zeta(n), n=0..180 (entry 1 unused)
-5.00000000000000000000000000000000000000000e-1Q,
0.0Q,
1.64493406684822643647241516664602518921895Q,
1.20205690315959428539973816151144999076499Q,
1.08232323371113819151600369654116790277475Q,
1.03692775514336992633136548645703416805708Q,
1.01734306198444913971451792979092052790182Q,
1.00834927738192282683979754984979675959986Q,
1.00407735619794433937868523850865246525896Q,
1.00200839282608221441785276923241206048561Q,
1.00099457512781808533714595890031901700602Q,
1.00049418860411946455870228252646993646861Q,
1.00024608655330804829863799804773967096042Q,
1.00012271334757848914675183652635739571428Q,
1.00006124813505870482925854510513533374748Q,
1.00003058823630702049355172851064506258763Q,
1.00001528225940865187173257148763672202324Q,
1.00000763719763789976227360029356302921309Q,
1.00000381729326499983985646164462193973045Q,
1.00000190821271655393892565695779510135326Q,
1.00000095396203387279611315203868344934594Q,
1.00000047693298678780646311671960437304597Q,
1.00000023845050272773299000364818675299494Q,
1.00000011921992596531107306778871888232639Q,
1.00000005960818905125947961244020793580123Q,
1.00000002980350351465228018606370506936601Q,
1.00000001490155482836504123465850663069863Q,
1.00000000745071178983542949198100417060412Q,
1.00000000372533402478845705481920401840242Q,
1.00000000186265972351304900640390994541695Q,
1.00000000093132743241966818287176473502122Q,
1.00000000046566290650337840729892332512201Q,
1.00000000023283118336765054920014559759405Q,
1.00000000011641550172700519775929738354563Q,
1.00000000005820772087902700889243685989106Q,
1.00000000002910385044497099686929425227884Q,
1.00000000001455192189104198423592963224532Q,
1.00000000000727595983505748101452086901234Q,
1.00000000000363797954737865119023723635587Q,
1.00000000000181898965030706594758483210073Q,
1.00000000000090949478402638892825331183869Q,
1.00000000000045474737830421540267991120295Q,
1.00000000000022737368458246525152268215780Q,
1.00000000000011368684076802278493491048380Q,
1.00000000000005684341987627585609277182968Q,
1.00000000000002842170976889301855455073705Q,
1.00000000000001421085482803160676983430714Q,
1.00000000000000710542739521085271287735448Q,
1.00000000000000355271369133711367329846953Q,
1.00000000000000177635684357912032747334901Q,
1.00000000000000088817842109308159030960914Q,
1.00000000000000044408921031438133641977709Q,
1.00000000000000022204460507980419839993201Q,
1.00000000000000011102230251410661337205446Q,
1.00000000000000005551115124845481243723737Q,
1.00000000000000002775557562136124172581632Q,
1.00000000000000001387778780972523276283909Q,
1.00000000000000000693889390454415369744609Q,
1.00000000000000000346944695216592262474427Q,
1.00000000000000000173472347604757657204897Q,
1.00000000000000000086736173801199337283421Q,
1.00000000000000000043368086900206504874970Q,
1.00000000000000000021684043449972197850139Q,
1.00000000000000000010842021724942414063013Q,
1.00000000000000000005421010862456645410919Q,
1.00000000000000000002710505431223468831955Q,
1.00000000000000000001355252715610116458149Q,
1.00000000000000000000677626357804518909800Q,
1.00000000000000000000338813178902079681809Q,
1.00000000000000000000169406589450979916541Q,
1.00000000000000000000084703294725469983482Q,
1.00000000000000000000042351647362728333479Q,
1.00000000000000000000021175823681361947318Q,
1.00000000000000000000010587911840680233852Q,
1.00000000000000000000005293955920339870324Q,
1.00000000000000000000002646977960169852961Q,
1.00000000000000000000001323488980084899080Q,
1.00000000000000000000000661744490042440407Q,
1.00000000000000000000000330872245021217159Q,
1.00000000000000000000000165436122510607565Q,
1.00000000000000000000000082718061255303444Q,
1.00000000000000000000000041359030627651609Q,
1.00000000000000000000000020679515313825767Q,
1.00000000000000000000000010339757656912871Q,
1.00000000000000000000000005169878828456431Q,
1.00000000000000000000000002584939414228214Q,
1.00000000000000000000000001292469707114107Q,
1.00000000000000000000000000646234853557053Q,
1.00000000000000000000000000323117426778527Q,
1.00000000000000000000000000161558713389263Q,
1.00000000000000000000000000080779356694632Q,
1.00000000000000000000000000040389678347316Q,
1.00000000000000000000000000020194839173658Q,
1.00000000000000000000000000010097419586829Q,
1.00000000000000000000000000005048709793414Q,
1.00000000000000000000000000002524354896707Q,
1.00000000000000000000000000001262177448354Q,
1.00000000000000000000000000000631088724177Q,
1.00000000000000000000000000000315544362088Q,
1.00000000000000000000000000000157772181044Q,
1.00000000000000000000000000000078886090522Q,
1.00000000000000000000000000000039443045261Q,
1.00000000000000000000000000000019721522631Q,
1.00000000000000000000000000000009860761315Q,
1.00000000000000000000000000000004930380658Q,
1.00000000000000000000000000000002465190329Q,
1.00000000000000000000000000000001232595164Q,
1.00000000000000000000000000000000616297582Q,
1.00000000000000000000000000000000308148791Q,
1.00000000000000000000000000000000154074396Q,
1.00000000000000000000000000000000077037198Q,
1.00000000000000000000000000000000038518599Q,
1.00000000000000000000000000000000019259299Q,
1.00000000000000000000000000000000009629650Q,
1.00000000000000000000000000000000004814825Q,
1.00000000000000000000000000000000002407412Q,
1.00000000000000000000000000000000001203706Q,
1.00000000000000000000000000000000000601853Q,
1.00000000000000000000000000000000000300927Q,
1.00000000000000000000000000000000000150463Q,
1.00000000000000000000000000000000000075232Q,
1.00000000000000000000000000000000000037616Q,
1.00000000000000000000000000000000000018808Q,
1.00000000000000000000000000000000000009404Q,
1.00000000000000000000000000000000000004702Q,
1.00000000000000000000000000000000000002351Q,
1.00000000000000000000000000000000000001175Q,
1.00000000000000000000000000000000000000588Q,
1.00000000000000000000000000000000000000294Q,
1.00000000000000000000000000000000000000147Q,
1.00000000000000000000000000000000000000073Q,
1.00000000000000000000000000000000000000037Q,
1.00000000000000000000000000000000000000018Q,
1.00000000000000000000000000000000000000009Q,
1.00000000000000000000000000000000000000005Q,
1.00000000000000000000000000000000000000002Q,
1.00000000000000000000000000000000000000001Q,
1.00000000000000000000000000000000000000001Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q,
1.00000000000000000000000000000000000000000Q
};
static const __float128 ZETA_NEG[700] = { // zeta(1-2k), k=1..700
-8.33333333333333333333333333333333333333333e-2Q,
8.33333333333333333333333333333333333333333e-3Q,
-3.96825396825396825396825396825396825396825e-3Q,
4.16666666666666666666666666666666666666667e-3Q,
-7.57575757575757575757575757575757575757576e-3Q,
2.10927960927960927960927960927960927960928e-2Q,
-8.33333333333333333333333333333333333333333e-2Q,
4.43259803921568627450980392156862745098039e-1Q,
-3.05395433027011974380395433027011974380395Q,
2.64562121212121212121212121212121212121212e+1Q,
-2.81460144927536231884057971014492753623188e+2Q,
3.60751054639804639804639804639804639804640e+3Q,
-5.48275833333333333333333333333333333333333e+4Q,
9.74936823850574712643678160919540229885057e+5Q,
-2.00526957966880789461434622724945305590467e+7Q,
4.72384867721629901960784313725490196078431e+8Q,
-1.26357247959166666666666666666666666666667e+10Q,
3.80879311252453688115530220793378688115530e+11Q,
-1.28508504993050833333333333333333333333333e+13Q,
4.82414483548501703715816703621581670362158e+14Q,
-2.00403106565162527381084216632389389864473e+16Q,
9.16774360319533077569927536231884057971014e+17Q,
-4.59798883436565034904379432624113475177305e+19Q,
2.51804719214510956970890233202255261078790e+21Q,
-1.50017334921539287337114401515151515151515e+23Q,
9.68995788746359406564979428946540880503145e+24Q,
-6.76458823792928209909452423017984776756707e+26Q,
5.08906594686622896897663329159119252873563e+28Q,
-4.11472887925579786976654860676193361581921e+30Q,
3.56665820953755561096845746086518289877903e+32Q,
-3.30660898765775767256802146704392100833333e+34Q,
3.27156342364787162642112270156687034136081e+36Q,
-3.44737825582780538782564550799534311840454e+38Q,
3.86142798327052588930927202002326501197779e+40Q,
-4.58929744324543321688639890060928360621742e+42Q,
5.77753863427704318248848256878643874120689e+44Q,
-7.69198587595071351674100759717852143844331e+46Q,
1.08136354499716546963540333511338596071777e+49Q,
-1.60293645220089654060671023457729429797144e+51Q,
2.50194790415604628436566614985166234609053e+53Q,
-4.10670523358102124797520450040716500197800e+55Q,
7.07987744084945806174529724333946914768798e+57Q,
-1.28045468879395087901908497563228972146866e+60Q,
2.42673403923335240780208920670921200897424e+62Q,
-4.81432188740457693551295700659768957982793e+64Q,
9.98755741757275306806527774081542360206091e+66Q,
-2.16456348684351856313351361598085319850799e+69Q,
4.89623270396205532068492245156313131818716e+71Q,
-1.15490239239635196639542716915652390488677e+74Q,
2.83822495706937069592641563364817647382847e+76Q,
-7.26120088036067163036772815107068472322350e+78Q,
1.93235142334198120033323266083801569104493e+81Q,
-5.34501604252886240053956094627541103409618e+83Q,
1.53560288464224230702071420132591780569398e+86Q,
-4.57898726822657976538994744683455952840385e+88Q,
1.41620252121948092583601799758628917703044e+91Q,
-4.54006522960926552491870532302694057554744e+93Q,
1.50766567588078597755948498944984130561564e+96Q,
-5.18309491482645637761224790375120065938710e+98Q,
1.84356474272565291185736028805941103713110e+101Q,
-6.78055547530909588969025102131021276485284e+103Q,
2.57733267027546045028964793299845281238115e+106Q,
-1.01191128757045976050079557959735554499660e+109Q,
4.10163461615422921089084567379415433179062e+111Q,
-1.71552445340320193922071524606451754951833e+114Q,
7.40034257052690942716920556052880600766416e+116Q,
-3.29092253570544434867706140856814695461759e+119Q,
1.50798315341647712056833365643992760929828e+122Q,
-7.11698791882545486286760649290561746677477e+124Q,
3.45804291415777717919922833642595805436647e+127Q,
-1.72909076066767483167489207071047115490660e+130Q,
8.89369916950329690887674533236235119570266e+132Q,
-4.70384706196360145151382798619619181069126e+135Q,
2.55719382310602058749858077137699708206010e+138Q,
-1.42840675004435277005808820900988480644401e+141Q,
8.19521522183137829409187036949842580227520e+143Q,
-4.82764854227273717816101742818519878647927e+146Q,
2.91896123747703236500405982200777403056232e+149Q,
-1.81089321625689040160530678803906534955183e+152Q,
1.15235772200211685798051266585179909297134e+155Q,
-7.51923119519817697500081265839476626902311e+157Q,
5.02940165764110497246840522742008199574036e+160Q,
-3.44734204444776767046094275989746154167882e+163Q,
2.42074586458685147183142674899499199763212e+166Q,
-1.74094659203776765075736879891677570839047e+169Q,
1.28194898634822427378088228065956967928127e+172Q,
-9.66241211085609184243169684777934860657838e+174Q,
7.45269103043008957309390945203506551161541e+177Q,
-5.88083933116743712482207044549567919347352e+180Q,
4.74627186549076153992212525721712652551817e+183Q,
-3.91691325947728254682903333390900123473211e+186Q,
3.30450714432260322283069086242650792642385e+189Q,
-2.84928905509945827581152102173788852811016e+192Q,
2.51033293450775865129599057985840378246681e+195Q,
-2.25939019954752532049562261337407720550274e+198Q,
2.07691380042876080434623778928613955784714e+201Q,
-1.94947321749272591308734114000718210256815e+204Q,
1.86807314712659138998396980689386402426120e+207Q,
-1.82707526628145769438663944090360651251284e+210Q,
1.82353863225956771810691544327749724524341e+213Q,
-1.85686908101259450981907133715254549161803e+216Q,
1.92871898511956020928868278692996779095910e+219Q,
-2.04311704602864475750762704423055775845986e+222Q,
2.20684116445278455076828336814098841855467e+225Q,
-2.43008217964902742513903897669760365971314e+228Q,
2.72748878790834695290272297756092991751038e+231Q,
-3.11974215737550845945157847856452973575271e+234Q,
3.63589387242826001493479749833015020568625e+237Q,
-4.31683000307608832681396003788423158391719e+240Q,
5.22042448793871999720448178212752693401608e+243Q,
-6.42926069497693048519893333725777026563873e+246Q,
8.06230338701308438135204143382386432708569e+249Q,
-1.02927147379030111575795568665800387682184e+253Q,
1.33753296997805240211378429500676576221635e+256Q,
-1.76894809027973797575657445271711877666819e+259Q,
2.38064790180923972522551743143614824277707e+262Q,
-3.25971279471941848235021235130325305783700e+265Q,
4.54049623716012131918616627123158461579097e+268Q,
-6.43285751931478506106894605686366951074989e+271Q,
9.26870486757493111152509786937702128436813e+274Q,
-1.35796195002851814738921378692931931969084e+278Q,
2.02278397360493216811767187783432771925000e+281Q,
-3.06299069922083360655392703162310551515376e+284Q,
4.71430853007426521282616631982480007193143e+287Q,
-7.37410458713557576506584806390808929585970e+290Q,
1.17209627670508265765085284662906818843336e+294Q,
-1.89288666446856573885385316552466170168491e+297Q,
3.10555175960489268960251418621546364467499e+300Q,
-5.17549774703667979651638883790002008883873e+303Q,
8.76015634462292151490407301348822321930279e+306Q,
-1.50579543360546802830668914367277389155865e+310Q,
2.62822945914037958563322916274295664790649e+313Q,
-4.65750514126904069071074368503462755633729e+316Q,
8.37889029540787223694025360457315104755772e+319Q,
-1.53007895410142309619722653314432200158006e+323Q,
2.83587549515267264152975296682458925417977e+326Q,
-5.33407323663383065926501382653772095369853e+329Q,
1.01808137906722206408077378369301161580844e+333Q,
-1.97156730982693404298996294763093247637668e+336Q,
3.87347601459887896613616175423599862971517e+339Q,
-7.71978998456618276499703962363020021263146e+342Q,
1.56056295285829357462938008213265936903812e+346Q,
-3.19951946073969756902718750981600353009545e+349Q,
6.65231719792762969207144992759959421393503e+352Q,
-1.40250217363524560644787448402828139332028e+356Q,
2.99802184624580021103703774311998244336616e+359Q,
-6.49718941746780158926657737117044006743443e+362Q,
1.42736531090036882251051184618688324479975e+366Q,
-3.17850984984826432163314456268037014580719e+369Q,
7.17383324426662276573272458918696066191152e+372Q,
-1.64088932958086789779630454189000426204006e+376Q,
3.80337480841820623891762134775125647415051e+379Q,
-8.93270129949718202160454878008202128763731e+382Q,
2.12560653744323926853893263742855147608208e+386Q,
-5.12427391110071442843449071312845708241012e+389Q,
1.25139576950695999365980709969557430811163e+393Q,
-3.09552187455160693688766669161405508768119e+396Q,
7.75558107927063940264075866301068252937563e+399Q,
-1.96789059698013059908354532274664059599904e+403Q,
5.05660485026189560164996728636548463881380e+406Q,
-1.31569217242783178799646540783131482069826e+410Q,
3.46619465493534261754992280593869407096352e+413Q,
-9.24531223167378763870332380181683026652161e+416Q,
2.49647486988461982633404921622041739951840e+420Q,
-6.82397148889914184592108529310841126880971e+423Q,
1.88807569037463548887810667214130705222866e+427Q,
-5.28739774012671449908255123506380979499141e+430Q,
1.49855786792599156287472360021760740542844e+434Q,
-4.29816377651030545933066673569349765463234e+437Q,
1.24749732062651098207423969431886809269577e+441Q,
-3.66364327980242039207103460040597044822566e+444Q,
1.08861338589484678720293698484789163963447e+448Q,
-3.27258903669280615779154913609604686712020e+451Q,
9.95261737339856840802237413153429500740807e+454Q,
-3.06183823614193020596247275963976174724741e+458Q,
9.52791044159072070726486786927474848106455e+461Q,
-2.99885383374541207899195687607289058894843e+465Q,
9.54612631802114875148498368984884776759892e+468Q,
-3.07316341340903378828530186597919292147944e+472Q,
1.00046843867055371509241394724857319068670e+476Q,
-3.29346732163028978047841779004009121401973e+479Q,
1.09624800873067812684039916002860423329131e+483Q,
-3.68929453808407043959360353597722215634164e+486Q,
1.25525147920273215023725370948057270713296e+490Q,
-4.31762768640158526547976929718845323430887e+493Q,
1.50127788416455782487390564573108077625067e+497Q,
-5.27658722755252992842191049400947527296408e+500Q,
1.87454666010362122527809065965723455591586e+504Q,
-6.73078492724793411267691309944518588243455e+507Q,
2.44251357769963558050722193876051267114333e+511Q,
-8.95747948469752266430967756157129673186314e+514Q,
3.31961885256390199031952507121111705060700e+518Q,
-1.24314114127228394681637458206747672890321e+522Q,
4.70390966088365564120568793114659502585979e+525Q,
-1.79837626738648421857481486703206554204672e+529Q,
6.94643842521936158392555018106734536508719e+532Q,
-2.71069759877477231124396503263676309352755e+536Q,
1.06859872532164086925994486963855583801347e+540Q,
-4.25540214121254871019825024765018316680410e+543Q,
1.71173621395161334015406464557772089941956e+547Q,
-6.95474908516935887343341336876546159104707e+550Q,
2.85399250695292888392751690176069054938386e+554Q,
-1.18284947149476511268768411133980115693316e+558Q,
4.95096876292135008919059248538089192593351e+561Q,
-2.09273347195917508684371966904756579535794e+565Q,
8.93264063656181593302959256047659028774008e+568Q,
-3.85005907629653461690207103299832583560836e+572Q,
1.67554499404630857673882941528123631189923e+576Q,
-7.36250738619066631268727968394869893375294e+579Q,
3.26630180964973306887156051737462406336626e+583Q,
-1.46294487223449132626819033341836618226694e+587Q,
6.61486587381015656713030517463086536950193e+590Q,
-3.01936831006373269053401631740893705655507e+594Q,
1.39121364954757426924458378530187769701405e+598Q,
-6.47045996576454982831986574617438160792051e+601Q,
3.03753396975765681977131407422745922271881e+605Q,
-1.43923943442017376801105408589491578441704e+609Q,
6.88259634788893218092612973756294547360073e+612Q,
-3.32170063273061151710927339378100350930340e+616Q,
1.61785420951677279650290480023729030847224e+620Q,
-7.95190004728012984043624949509655630768603e+623Q,
3.94400240724409324586263797935110546945257e+627Q,
-1.97387849592349790999446504080245542143540e+631Q,
9.96788596361739636667232361967090214511268e+634Q,
-5.07887681175006818103501733003785231752990e+638Q,
2.61094063919853340271168941061636152948935e+642Q,
-1.35417221347982229794341526091963647949898e+646Q,
7.08567797579737630095105137324336548980635e+649Q,
-3.74026795990269659783165032575897002387456e+653Q,
1.99168725288492367837774205125475715175022e+657Q,
-1.06984328267544136623499547203682202745130e+661Q,
5.79673429460642999597255866998359181041222e+664Q,
-3.16806870006420120089121929924787882973487e+668Q,
1.74637558565486784328999660727552425525506e+672Q,
-9.70949428338408800688336685144422225442567e+675Q,
5.44447037126304761801494809721703241251730e+679Q,
-3.07892451361206747248598256926586998962997e+683Q,
1.75594640389852600743117776967279126820445e+687Q,
-1.00989646265346397878516576938589334902823e+691Q,
5.85707148141977743081961282721239610917346e+694Q,
-3.42536693639144263328954618535180254717573e+698Q,
2.01995425192910470334047079472310124956582e+702Q,
-1.20107159777726787658050134354250221821703e+706Q,
7.20069458593859042439629037468518684737692e+709Q,
-4.35254565583712348488928253987124709956739e+713Q,
2.65253529113657040798672065726151486097992e+717Q,
-1.62972172928711285377252890648582924793126e+721Q,
1.00945245185964970638417825719376655497771e+725Q,
-6.30324511247279553729078717773793446031167e+728Q,
3.96765907042542275658293871333200273174537e+732Q,
-2.51757455707106846864063357068971639182786e+736Q,
1.61025370236121486484169081041503068045695e+740Q,
-1.03814133695100301811607991530613644514533e+744Q,
6.74613804264252885837896011540448239790289e+747Q,
-4.41852159183206418290185550359988378403624e+751Q,
2.91681121464264593335344294296646820250648e+755Q,
-1.94059947911544068458224309521376038024158e+759Q,
1.30120739201043621393947870394395666267943e+763Q,
-8.79279665816935008996204162987441068248999e+766Q,
5.98776035773696178429635188535629880679473e+770Q,
-4.10909082622158276758498754437347519196924e+774Q,
2.84156893355226558193205638240182300766318e+778Q,
-1.98010878109244763374961629959882708887507e+782Q,
1.39035490185352531745787174676935145530166e+786Q,
-9.83683825016452749996248556795532550646771e+789Q,
7.01239197702352332572161116394016390599525e+793Q,
-5.03669077966643647768436235528848221006505e+797Q,
3.64485781386557384800351605032133047574979e+801Q,
-2.65741835145074454154027569016520120125911e+805Q,
1.95196143906571970340011680198247560310233e+809Q,
-1.44445002969348596833936096523345953443039e+813Q,
1.07681699580595521738069034890197831153539e+817Q,
-8.08681609572192760830946766614040187249013e+820Q,
6.11783555507534240108850150156589410430790e+824Q,
-4.66220070130768000028463316533474358990357e+828Q,
3.57886665238412609209771994537801282160809e+832Q,
-2.76726015158111921512805596922023192502803e+836Q,
2.15522690735389081246413668131795184694725e+840Q,
-1.69068714476177629008536225254027521959157e+844Q,
1.33582485714973310151222926647264401587119e+848Q,
-1.06301813139501273382999587214502720776472e+852Q,
8.51972635410407760934154431801697276486957e+855Q,
-6.87691190464318012792193061262295596073563e+859Q,
5.59027553834454109284955691691933251685821e+863Q,
-4.57650645954267086593170033030109846055894e+867Q,
3.77298698320407769124627281887236722487432e+871Q,
-3.13239282805130396811951258184819283280975e+875Q,
2.61876315119636909231176400844146955366207e+879Q,
-2.20462527031567384551718060382128226166796e+883Q,
1.86888012991926204611764337570585753481475e+887Q,
-1.59523928362995333883822514722014869335577e+891Q,
1.37106371839888978843842762929168601325588e+895Q,
-1.18649691952723019349641295492035260093356e+899Q,
1.03381444378806081993174605437087413115723e+903Q,
-9.06933574527282075368022749950518273327669e+906Q,
8.01041904139068407765199790276081349508393e+910Q,
-7.12314686768008029841335801685287163490861e+914Q,
6.37698760541582022138044176346794993111904e+918Q,
-5.74746621457231799057123738446481034111363e+922Q,
5.21488453165609726066413784219563634716917e+926Q,
-4.76333013384920899861239799906631198212396e+930Q,
4.37990558764750096185943910670448630122782e+934Q,
-4.05412677852998313580102148267251343542724e+938Q,
3.77745156204899681689725049709094551074284e+942Q,
-3.54290934049146437002488867502406010894582e+946Q,
3.34480919050014258056495752104945935162389e+950Q,
-3.17850945609524638878295803604691156396861e+954Q,
3.04023572511085071771167302460818099860815e+958Q,
-2.92693715359754410566794325192986126677463e+962Q,
2.83617343489453163451504474934718951159304e+966Q,
-2.76602650806998094386983319413873755248661e+970Q,
2.71503249896687924368227700775609749907791e+974Q,
-2.68213048762169947382822622835697103753352e+978Q,
2.66662557553040278068335059550066074150278e+982Q,
-2.66816444467914019388693302696432922557494e+986Q,
2.68672220432722319064773753057500397200143e+990Q,
-2.72259984922925607915438903511584928806462e+994Q,
2.77643213637880205667572958432370285569090e+998Q,
-2.84920615498850324627558378667384438603889e+1002Q,
2.94229134338407363897640215299167125058466e+1006Q,
-3.05748222435504756688196727761390067533847e+1010Q,
3.19705571726816162427511046901568351829680e+1014Q,
-3.36384557544239465335089256765231210260242e+1018Q,
3.56133733244635218964993928754830727662454e+1022Q,
-3.79378817267910574081380542553451245731623e+1026Q,
4.06637743527991319987230471840997175084169e+1030Q,
-4.38539510039516884369861866648423866316177e+1034Q,
4.75847770288779489897354571553666879822728e+1038Q,
-5.19490381472800462325217743629806397541011e+1042Q,
5.70596472362497413454078890194383338487557e+1046Q,
-6.30543046399579150071645576791957364634050e+1050Q,
7.01013726275866418353479706295954496364694e+1054Q,
-7.84073019533098276013990758995180192160209e+1058Q,
8.82260500847906475211030079384537544016687e+1062Q,
-9.98710646653184140019510539827120446880751e+1066Q,
1.13730583103795588163821066930278886621342e+1071Q,
-1.30287234680128102803443364383304498009198e+1075Q,
1.50143245384743807040635933368007995357674e+1079Q,
-1.74052965408711135523562312543439616285279e+1083Q,
2.02965002459067682545300984212713637124381e+1087Q,
-2.38077002682019891902557806199757116854502e+1091Q,
2.80907146336738210422592383937339188508630e+1095Q,
-3.33387816258593316742191572639279484980840e+1099Q,
3.97988790727620943767886764414791473147475e+1103Q,
-4.77879899688209153845250356507447351565423e+1107Q,
5.77146631498199806690637474434251921618737e+1111Q,
-7.01077061366820672484733041628575457297241e+1115Q,
8.56545220221124613253968209592694350502496e+1119Q,
-1.05252537990795026095237444695757504777098e+1124Q,
1.30078475549427266009095896410391366256637e+1128Q,
-1.61682032425379609970316438242567232929722e+1132Q,
2.02113098589119853580237895758129634576392e+1136Q,
-2.54095222602538995633588656361850974349622e+1140Q,
3.21263123743535478605384198284641174314181e+1144Q,
-4.08489251945068689313923613385462431266392e+1148Q,
5.22334662298191339870066776467379844578359e+1152Q,
-6.71674148597037136362270451411620919372673e+1156Q,
8.68566650864005769568297420283039298850941e+1160Q,
-1.12947231866289482112373200960177000270113e+1165Q,
1.47696155042144474519416279910297383137325e+1169Q,
-1.94212515744337626379570087553421652214608e+1173Q,
2.56798789428806457564480769616858935755845e+1177Q,
-3.41436391706598297222588447500928688158116e+1181Q,
4.56479315411150641985621090214479929363560e+1185Q,
-6.13649343467462615471033088599577528298666e+1189Q,
8.29470173896733024511563454321979442458860e+1193Q,
-1.12734305383155035529297061672450786951902e+1198Q,
1.54056403730947420927181051589372854071500e+1202Q,
-2.11672929817130669922198420661267377911124e+1206Q,
2.92419536584425737782750293712357679966437e+1210Q,
-4.06159462361545809824971244619083964783871e+1214Q,
5.67191296269127527407831926209908696679363e+1218Q,
-7.96340914285662686620215670870800916085484e+1222Q,
1.12408388559037822556728040750932811946936e+1227Q,
-1.59522666632988254552552575399953929428696e+1231Q,
2.27595601428344243401827185730643695087650e+1235Q,
-3.26450204195073016678707413126969563030652e+1239Q,
4.70733932663038889217571668078998990317642e+1243Q,
-6.82391240934289880957501267651764344264975e+1247Q,
9.94453975970568897629576882733483804967500e+1251Q,
-1.45687805247507114143009881395610197399125e+1256Q,
2.14557140933589330026974330618705818230470e+1260Q,
-3.17642079393284938431529314020893489031740e+1264Q,
4.72718313179561591261567339221521668381623e+1268Q,
-7.07180456965754154927611009816360750573721e+1272Q,
1.06344642810739275393543924676713368135584e+1277Q,
-1.60750626585805515681504959993080457055953e+1281Q,
2.44250578439730521697519954241013393282791e+1285Q,
-3.73042750211794973547990970026499908112198e+1289Q,
5.72685150516029054504747787092006520845319e+1293Q,
-8.83693828581539194924966540626899533876779e+1297Q,
1.37059959906732674827149848886753148950116e+1302Q,
-2.13666572379763206386652024844042716733948e+1306Q,
3.34791270005792667620532401151900663802360e+1310Q,
-5.27251238814260021337100867165846250409267e+1314Q,
8.34567458920332243910390175668647193760611e+1318Q,
-1.32770037855269688863399667417612828823717e+1323Q,
2.12289235691482024745063916867553503175197e+1327Q,
-3.41145483446730912983197355015010455033096e+1331Q,
5.50972039245550404209601272356375645465618e+1335Q,
-8.94318729506471775045494785731811700045016e+1339Q,
1.45888985087126362592830433858953574252467e+1344Q,
-2.39174401249730071706553965427817832258758e+1348Q,
3.94061072702432668590880842585147736579617e+1352Q,
-6.52474706805658313736283609062369976308154e+1356Q,
1.08569994862305813142944809379081585998850e+1361Q,
-1.81550168111118584362626433811400461805762e+1365Q,
3.05083649080462029330068327250384142509325e+1369Q,
-5.15194728770791738347063120931398998557984e+1373Q,
8.74276650197007203769468900176987549539006e+1377Q,
-1.49089189020753595885707651615057717992140e+1382Q,
2.55480682935330034054362895666244404931677e+1386Q,
-4.39925860250963746960448813966513670126941e+1390Q,
7.61211449761817574304283008264515216268738e+1394Q,
-1.32351979983168630539933697031917363309448e+1399Q,
2.31233004495385531577301000044504749831758e+1403Q,
-4.05936789993997847921744434406661219444178e+1407Q,
7.16062948664685555998543900930697510045423e+1411Q,
-1.26917994590475700564311249686734672350783e+1416Q,
2.26031748199582475623084187439733044320269e+1420Q,
-4.04468765182950450027956426570856286286564e+1424Q,
7.27218500033702610970505206878651579768237e+1428Q,
-1.31372461543846513946351318496378755022008e+1433Q,
2.38450575026065427109717794837013669333585e+1437Q,
-4.34852708919664081275357544953357509895025e+1441Q,
7.96766248711854261304795853994183414508261e+1445Q,
-1.46676256797313765109119844124549006048827e+1450Q,
2.71283929105288081295438783405470142374869e+1454Q,
-5.04102576031924224578347055128088780342837e+1458Q,
9.41108360815334897523164915042973276606043e+1462Q,
-1.76514951494005080060438915344657408028834e+1467Q,
3.32613461922561783297038868779326493914475e+1471Q,
-6.29665553958293684084664300144604643379921e+1475Q,
1.19753216882201555336479060001099897877352e+1480Q,
-2.28805760083300589298276872760254540891933e+1484Q,
4.39182093253873517999363922220301040316699e+1488Q,
-8.46867792252060856861696997292146001179617e+1492Q,
1.64049671548456382617947544813055478391559e+1497Q,
-3.19241489184039570394827019243975400823258e+1501Q,
6.24083904894046968336856278351749336867020e+1505Q,
-1.22558045419949372129318980118720627398016e+1510Q,
2.41774992295521753241486625440902864141019e+1514Q,
-4.79123174003815720485131295348906023791004e+1518Q,
9.53772468810671620419906894653255930552832e+1522Q,
-1.90721551999348740883711483841721651602312e+1527Q,
3.83096113516136462139613158494843500060422e+1531Q,
-7.72972997185879618112279734104681350309853e+1535Q,
1.56662531522051984995312324742350397059078e+1540Q,
-3.18937698558500337999147394323072618157365e+1544Q,
6.52202032264979039242491476282565170080940e+1548Q,
-1.33964495047364145619320287007576325599284e+1553Q,
2.76391232537660815306848917624504535618352e+1557Q,
-5.72771678515181711929220735508205969521031e+1561Q,
1.19222241722898270292651849116824706714109e+1566Q,
-2.49256951181474869512066606920981643154466e+1570Q,
5.23416382008550808011593373764495471217329e+1574Q,
-1.10395962509299654477054653748578516383629e+1579Q,
2.33862583681575892721314377004287715344656e+1583Q,
-4.97583322890071456424747093682275230377746e+1587Q,
1.06332070828313078210852484904585863797227e+1592Q,
-2.28219102288187304617820450938329545702017e+1596Q,
4.91954432693433318615222174731433193684624e+1600Q,
-1.06507170028179563095072787024523777571606e+1605Q,
2.31584681743774458067518233741682522523637e+1609Q,
-5.05724254574611629252648216274681990231850e+1613Q,
1.10914078605320265917726060029270015648964e+1618Q,
-2.44300578362296445046331994196285922318591e+1622Q,
5.40409836625422033038319044054697252062580e+1626Q,
-1.20054639622372836422446368609192376628459e+1631Q,
2.67847527871029742309231881902197635887528e+1635Q,
-6.00130062651980189842622418567832612635780e+1639Q,
1.35035588502232430320262561070253011599262e+1644Q,
-3.05135198169076159016793228860113245162990e+1648Q,
6.92426509192133563482000330696568310311453e+1652Q,
-1.57793278365585746664027440187584027610597e+1657Q,
3.61104486932762855768603828041447570297920e+1661Q,
-8.29856494452073085340975580140600120490412e+1665Q,
1.91511565629976090027327217269328721264073e+1670Q,
-4.43818192153175354334813305820677645789179e+1674Q,
1.03283151117572810604511943999953199043064e+1679Q,
-2.41359481147265869415928014265419374763203e+1683Q,
5.66377491956603794897444547426440297896928e+1687Q,
-1.33459838980323262981215680569104990119946e+1692Q,
3.15787154787625805729189832506080973790229e+1696Q,
-7.50298119499250030327105799831387210449951e+1700Q,
1.79004968460224804953087656949227332694922e+1705Q,
-4.28829302753974654634230490001312156766294e+1709Q,
1.03154526465965323235853559600210339219266e+1714Q,
-2.49156908988716196295147046146971317434695e+1718Q,
6.04275163166173338344332499297661157158643e+1722Q,
-1.47153328734375266661823759361844850271975e+1727Q,
3.59811764926429800137258290527979639434986e+1731Q,
-8.83378757812218311770212306714452771397372e+1735Q,
2.17761591890735269565171772626830556589174e+1740Q,
-5.38982646011354112094320367918131596877499e+1744Q,
1.33944194388610474801448641439874965727427e+1749Q,
-3.34214338755826700226066280045416257322498e+1753Q,
8.37287884160764869163188973663512286784756e+1757Q,
-2.10605431240607654846670531751968342925313e+1762Q,
5.31870446941552203648291374376708554520937e+1766Q,
-1.34859082429314439984784437034743312533047e+1771Q,
3.43312106260804100707245888459839066603425e+1775Q,
-8.77463694038845285893633615648593737445332e+1779Q,
2.25162919254997353140950616756664228106821e+1784Q,
-5.80081255808089955784392453209844635322301e+1788Q,
1.50038123881849966901718178845917357373966e+1793Q,
-3.89611570726291511153082843700460442833763e+1797Q,
1.01572491766475193893521796856126297616094e+1802Q,
-2.65846551308949290983015155800501429818424e+1806Q,
6.98543178684774625094828679743030093860745e+1810Q,
-1.84272035530016445750433750020045833509988e+1815Q,
4.88007196006713248632909626044992761038561e+1819Q,
-1.29744904687393228673044230008937021332440e+1824Q,
3.46296720727291681375061533731052143536265e+1828Q,
-9.27891361850191305448305046969481582675492e+1832Q,
2.49593507967962453832167917825710786579648e+1837Q,
-6.73990177106099362363736247380384818760522e+1841Q,
1.82706803212285586717246404141144805357719e+1846Q,
-4.97202717889573963844678286526730326328045e+1850Q,
1.35827171942119004157935563520605670013204e+1855Q,
-3.72486888672014165427033914302991751645521e+1859Q,
1.02542353542912740357677056742176230318707e+1864Q,
-2.83374217248006150172632036519773413808328e+1868Q,
7.86102111842261446169477538447927669508919e+1872Q,
-2.18905159147672452970700200577390346649969e+1877Q,
6.11911021354488923773183490164638319508382e+1881Q,
-1.71700930914907206580048634385985983852505e+1886Q,
4.83621927461388062077037748947606821123157e+1890Q,
-1.36736718241057244091535545910645683129158e+1895Q,
3.88067295048249505921388601487784318030368e+1899Q,
-1.10552496916895616198535630097782668141923e+1904Q,
3.16130647218975100691967467492791926487532e+1908Q,
-9.07398588749703397851488676648270943695291e+1912Q,
2.61432747370033273966326758469813916683888e+1917Q,
-7.56047720052091815902993598388950597249380e+1921Q,
2.19463711648986099166209077701742340279486e+1926Q,
-6.39436599603356755726403640968922066626481e+1930Q,
1.87003829148048185474619368544215382559075e+1935Q,
-5.48932238337624183888428213101057361527917e+1939Q,
1.61733209929567550474620578594583589284532e+1944Q,
-4.78287376715247231145177127157014163533958e+1948Q,
1.41966180958916186097352718625838012265967e+1953Q,
-4.22945280498249047480299382446979295655146e+1957Q,
1.26468921732573705817936644377721702577667e+1962Q,
-3.79560363781423890874358537051721029078736e+1966Q,
1.14333201884822134621730249693097652237981e+1971Q,
-3.45665017469643061555153738383669221841951e+1975Q,
1.04888321139727017343600086550679206244094e+1980Q,
-3.19436529675465594663339756937791180824326e+1984Q,
9.76393489464223048004264499709372887648074e+1988Q,
-2.99533321457038554477174861436003670259788e+1993Q,
9.22236937355800286548694604182952444131805e+1997Q,
-2.84979832751682983049872919594462278537187e+2002Q,
8.83806392362468353841022745753071590684093e+2006Q,
-2.75086139277311859984095018985396802165446e+2011Q,
8.59302369253853328624099868938544972485204e+2015Q,
-2.69392948770028939319300665398700691472327e+2020Q,
8.47591407918557013286294718300091735942679e+2024Q,
-2.67635781945634749772222053350878274066145e+2029Q,
8.48118096506164417025165946421007392133879e+2033Q,
-2.69724395541094056127110495827931707225854e+2038Q,
8.60861142242540889196205579014539814070399e+2042Q,
-2.75735194169875529731115573839610420878166e+2047Q,
8.86328617267930207633818787619201955493437e+2051Q,
-2.85915748028748351056985823384795239272229e+2056Q,
9.25591565283126264754067423333574103308368e+2060Q,
-3.00701772674960625198160531407742699650976e+2065Q,
9.80359062186668209640901635968209963493308e+2069Q,
-3.20748199408713561699161573923744963528603e+2074Q,
1.05310209434558726616950801006125012404560e+2079Q,
-3.46977437628575577889577700279273563877721e+2083Q,
1.14723881727016154146599731635138058663076e+2088Q,
-3.80649801373997711393001722590459361999571e+2092Q,
1.26740059398541249862585508456762529576172e+2097Q,
-4.23463601062147140797643114981311666273638e+2101Q,
1.41980765582672157213899819115207375059033e+2106Q,
-4.77695954431979311771077473048560623616448e+2110Q,
1.61279667580565768905503357158224232464475e+2115Q,
-5.46400484724233294219401562333736230321873e+2119Q,
1.85756207026422302005801973965045376901371e+2124Q,
-6.33685554173002280229598247404774128132789e+2128Q,
2.16920158402751882804433410168212964386605e+2133Q,
-7.45107752168790413029020040015577930973897e+2137Q,
2.56819946763700381800362065431730787052097e+2142Q,
-8.88231905001375405831055589257178328332668e+2146Q,
3.08254474199319107197859250000437194948489e+2151Q,
-1.07343382447422351345035057419507836634858e+2156Q,
3.75077923337922713047141652808285187563980e+2160Q,
-1.31505994730328179008490135201505041996488e+2165Q,
4.62641843154812112284669820903756183468273e+2169Q,
-1.63311616550841971087384435792643277595780e+2174Q,
5.78441657873177817044606809001799491388936e+2178Q,
-2.05574800843285454273308649037947688710094e+2183Q,
7.33070173128770568898015426967982119637382e+2187Q,
-2.62291434314134408310232347259228549555785e+2192Q,
9.41636087506324924342421066051296480703536e+2196Q,
-3.39187669950351706078909354033583386567401e+2201Q,
1.22589296249260720674421223756710415210287e+2206Q,
-4.44547472345056135246268177608603587219257e+2210Q,
1.61746320425189337754011698697004870749840e+2215Q,
-5.90471480728886827780966031456276814408155e+2219Q,
2.16276476053238179687411028106095274991377e+2224Q,
-7.94809559319636231070756222621485691579085e+2228Q,
2.93060929681096068762289359956173005666098e+2233Q,
-1.08415511073059926590442838659834408242125e+2238Q,
4.02402989204235466749979194434227994612401e+2242Q,
-1.49852806899546201201908832151297348430857e+2247Q,
5.59886647231025157516873239864222938292893e+2251Q,
-2.09876844790156736676910738928029298609011e+2256Q,
7.89324864563549729906709827805743768779962e+2260Q,
-2.97832126032674762344029523983875484907963e+2265Q,
1.12748161238220286694238658980995729779301e+2270Q,
-4.28220286473508703844689521866233312363882e+2274Q,
1.63170834210835104083548505814932180010544e+2279Q,
-6.23782299252597105476314517591841182131114e+2283Q,
2.39241476756425756396054365415680599922508e+2288Q,
-9.20556655430881380461412984678242417312359e+2292Q,
3.55363568866869063258357541428726023578664e+2297Q,
-1.37626268995844986882722468172372222327070e+2302Q,
5.34728769667263067835353792098052734107931e+2306Q,
-2.08433384580223807584838828283044396620717e+2311Q,
8.15080059540533397610889262444906667185653e+2315Q,
-3.19764512161159170833566290116754961563259e+2320Q,
1.25850522410429250609997569877114413554039e+2325Q,
-4.96903790507168550165025956779370325158138e+2329Q,
1.96824834823121099016507320364439599474882e+2334Q,
-7.82123902918792839921470535793920031697205e+2338Q,
3.11786340332103319372394610352853307252526e+2343Q,
-1.24687312637188980017863888880788072756301e+2348Q,
5.00229038698503387131587939454706265719324e+2352Q,
-2.01323649390338945759179373361991617275284e+2357Q,
8.12826329365691731724388562032397240407074e+2361Q,
-3.29211976180908145084200476341283437343531e+2366Q,
1.33759984442579990321388322249560215329388e+2371Q,
-5.45189331152228487280431715483009506968801e+2375Q,
2.22913763030071257392038804418725271936685e+2380Q,
-9.14308298489604808654593109048262407874708e+2384Q,
3.76194582958073083054980091433646132970172e+2389Q,
-1.55272438154293994251120432076807330133556e+2394Q,
6.42889058011143867071173718771065706767702e+2398Q,
-2.67014838640179541954971857150809287059358e+2403Q,
1.11247520882377963752507156933262813434155e+2408Q,
-4.64941975243737113703928588426131016933889e+2412Q,
1.94920957061211941736207266155882204981338e+2417Q,
-8.19723864382880164334131325640869785128217e+2421Q,
3.45799049036333494557142203128039176690196e+2426Q,
-1.46327211478248310979886495511051659408635e+2431Q,
6.21111262735567511362660639748650421673470e+2435Q,
-2.64456743259165727966848315404181454650823e+2440Q,
1.12948053843361107229996940618635318022592e+2445Q,
-4.83882219849135467857143686780759897944232e+2449Q,
2.07938701468310495144807653286196286873674e+2454Q,
-8.96321252307733642647277528574476595716696e+2458Q,
3.87545520793061639365449121482300728634687e+2463Q,
-1.68077808000607179778024252368939936556966e+2468Q,
7.31180543078459313834079539738439418222904e+2472Q,
-3.19053454026571965672468098250429955407915e+2477Q,
1.39644820436319780385005711102265421486483e+2482Q,
-6.13065333952349970054158403077791720893336e+2486Q,
2.69964854206607250224726707862427237821187e+2491Q,
-1.19240624154395406594701638816918440330937e+2496Q,
5.28269823729620513170140734436688961734465e+2500Q,
-2.34746934655907745311813567205233214649952e+2505Q,
1.04629618100197843279572852838655511642456e+2510Q,
-4.67754483959038623762536893618889022552829e+2514Q,
2.09743214238509577869718838202102897980880e+2519Q,
-9.43327633424107222904077904562804408997684e+2523Q,
4.25539535531746401082476434571149744303505e+2528Q,
-1.92538703868425810180152074461346521388540e+2533Q,
8.73765710700441756162066605387759389375278e+2537Q,
-3.97712130187495497434515870318386523123155e+2542Q,
1.81567297274495495464192622086415397987415e+2547Q,
-8.31379755962997840960574414343612084082105e+2551Q,
3.81814453206303700827490819064807691872051e+2556Q,
-1.75871095700977310654635317134917906787673e+2561Q,
8.12500898867900099819998608466462887425252e+2565Q,
-3.76477132177519704210145997565501443343387e+2570Q,
1.74959216201181463686101466525868659208334e+2575Q,
-8.15486216505623377208109264636995186858086e+2579Q,
3.81220384347871324459054270581130976505209e+2584Q,
-1.78736566820918531165704393453201124101711e+2589Q,
8.40478558160676592863448173090041859199869e+2593Q,
-3.96381998888505719249680534498551815339617e+2598Q,
1.87487967310722612000961751324670315346944e+2603Q,
-8.89412460232517670121565045063493128597294e+2607Q,
4.23156966021997570904884802865853520249594e+2612Q,
-2.01913987960285256964906825409678684761108e+2617Q,
9.66264670425555688556312095943249985777475e+2621Q,
-4.63755142155465782283305337245554680763170e+2626Q,
2.23224821920258770679447659669229095683097e+2631Q,
-1.07759486558608992931864038226699045914095e+2636Q,
5.21706202311552917777356138389965809225743e+2640Q,
-2.53309878541965414323522454274286232690084e+2645Q,
1.23347991252190533129039011891589992833178e+2650Q,
-6.02371001426790412265472706879337084798798e+2654Q,
2.95016461708468655569188380480795190703756e+2659Q,
-1.44902829162898347540790511644962445892368e+2664Q,
7.13763128753025939250696310483878150642517e+2668Q,
-3.52595038839159360133748322405317241874833e+2673Q,
1.74679261226415065675998758242505336009267e+2678Q
};
static const __float128 NETA_POS[181] = { // -eta(n), n=0..180
-5.00000000000000000000000000000000000000000e-1Q,
-6.93147180559945309417232121458176568075500e-1Q,
-8.22467033424113218236207583323012594609475e-1Q,
-9.01542677369695714049803621133587493073740e-1Q,
-9.47032829497245917576503234473521914927907e-1Q,
-9.72119770446909305935655143553469532553513e-1Q,
-9.85551091297435104098439244484954261404886e-1Q,
-9.92593819922830282670425713133393685231116e-1Q,
-9.96233001852647899227289260082803617874125e-1Q,
-9.98094297541605330767783031852597950874334e-1Q,
-9.99039507598271565639221845699341831425930e-1Q,
-9.99517143498060754144094174828690180671274e-1Q,
-9.99757685143858190853179678712755423074205e-1Q,
-9.99878542763265115492174992816267952990712e-1Q,
-9.99939170345979718170954192255391054531936e-1Q,
-9.99969551213099238082632932628777957786445e-1Q,
-9.99984764214906106441682774961407240922101e-1Q,
-9.99992378292041011976937872241800737296749e-1Q,
-9.99996187869610113479689226411607683276447e-1Q,
-9.99998093508171675106856492965268254295529e-1Q,
-9.99999046611581522115050842557726344313120e-1Q,
-9.99999523258215542816316664327868609873461e-1Q,
-9.99999761613230822547897204943084000220337e-1Q,
-9.99999880801318439503223824845654243063501e-1Q,
-9.99999940398892394628361403140212937798229e-1Q,
-9.99999970198856962834415133108543374856919e-1Q,
-9.99999985099231996568787661805858293259729e-1Q,
-9.99999992549550484963515852742087952606387e-1Q,
-9.99999996274753400108727527670174533868130e-1Q,
-9.99999998137369418112186746564997285518883e-1Q,
-9.99999999068682281453978627279547843092151e-1Q,
-9.99999999534340331454217514686270092664031e-1Q,
-9.99999999767169895951490822815281153122086e-1Q,
-9.99999999883584858046030472654660591973820e-1Q,
-9.99999999941792399045315923880367537618343e-1Q,
-9.99999999970896189529809522584754612976934e-1Q,
-9.99999999985448091433884763955111864633266e-1Q,
-9.99999999992724044606584750057155485487097e-1Q,
-9.99999999996362021933168755501928930585320e-1Q,
-9.99999999998181010843208735550126539578861e-1Q,
-9.99999999999090505380478878091048509484944e-1Q,
-9.99999999999545252676530873574433659327084e-1Q,
-9.99999999999772626333695897734984437456005e-1Q,
-9.99999999999886313165324764876061315763362e-1Q,
-9.99999999999943156582154653364004740931006e-1Q,
-9.99999999999971578290908083388097707662138e-1Q,
-9.99999999999985789145397627195438202656470e-1Q,
-9.99999999999992894572680008748021258466371e-1Q,
-9.99999999999996447286333736086571038170708e-1Q,
-9.99999999999998223643164778613087230471062e-1Q,
-9.99999999999999111821581692829547909985553e-1Q,
-9.99999999999999555910790614255709650418737e-1Q,
-9.99999999999999777955395229741483622866121e-1Q,
-9.99999999999999888977697589075280635424824e-1Q,
-9.99999999999999944488848785939152231898375e-1Q,
-9.99999999999999972244424390103413163890785e-1Q,
-9.99999999999999986122212194096318867062314e-1Q,
-9.99999999999999993061106096729696845854192e-1Q,
-9.99999999999999996530553048258694223022449e-1Q,
-9.99999999999999998265276524093962377206593e-1Q,
-9.99999999999999999132638262035186276917648e-1Q,
-9.99999999999999999566319131013661501167582e-1Q,
-9.99999999999999999783159565505520204804370e-1Q,
-9.99999999999999999891579782752323253805127e-1Q,
-9.99999999999999999945789891376016010702564e-1Q,
-9.99999999999999999972894945687959466617704e-1Q,
-9.99999999999999999986447472843963553730932e-1Q,
-9.99999999999999999993223736421976383672810e-1Q,
-9.99999999999999999996611868210986394105516e-1Q,
-9.99999999999999999998305934105492597809127e-1Q,
-9.99999999999999999999152967052746099156687e-1Q,
-9.99999999999999999999576483526372982995718e-1Q,
-9.99999999999999999999788241763186469303650e-1Q,
-9.99999999999999999999894120881593227253756e-1Q,
-9.99999999999999999999947060440796611160855e-1Q,
-9.99999999999999999999973530220398304758420e-1Q,
-9.99999999999999999999986765110199152105207e-1Q,
-9.99999999999999999999993382555099575961269e-1Q,
-9.99999999999999999999996691277549787950190e-1Q,
-9.99999999999999999999998345638774893964947e-1Q,
-9.99999999999999999999999172819387446979091e-1Q,
-9.99999999999999999999999586409693723488418e-1Q,
-9.99999999999999999999999793204846861743833e-1Q,
-9.99999999999999999999999896602423430871791e-1Q,
-9.99999999999999999999999948301211715435854e-1Q,
-9.99999999999999999999999974150605857717913e-1Q,
-9.99999999999999999999999987075302928858952e-1Q,
-9.99999999999999999999999993537651464429474e-1Q,
-9.99999999999999999999999996768825732214737e-1Q,
-9.99999999999999999999999998384412866107368e-1Q,
-9.99999999999999999999999999192206433053684e-1Q,
-9.99999999999999999999999999596103216526842e-1Q,
-9.99999999999999999999999999798051608263421e-1Q,
-9.99999999999999999999999999899025804131710e-1Q,
-9.99999999999999999999999999949512902065855e-1Q,
-9.99999999999999999999999999974756451032928e-1Q,
-9.99999999999999999999999999987378225516464e-1Q,
-9.99999999999999999999999999993689112758232e-1Q,
-9.99999999999999999999999999996844556379116e-1Q,
-9.99999999999999999999999999998422278189558e-1Q,
-9.99999999999999999999999999999211139094779e-1Q,
-9.99999999999999999999999999999605569547389e-1Q,
-9.99999999999999999999999999999802784773695e-1Q,
-9.99999999999999999999999999999901392386847e-1Q,
-9.99999999999999999999999999999950696193424e-1Q,
-9.99999999999999999999999999999975348096712e-1Q,
-9.99999999999999999999999999999987674048356e-1Q,
-9.99999999999999999999999999999993837024178e-1Q,
-9.99999999999999999999999999999996918512089e-1Q,
-9.99999999999999999999999999999998459256044e-1Q,
-9.99999999999999999999999999999999229628022e-1Q,
-9.99999999999999999999999999999999614814011e-1Q,
-9.99999999999999999999999999999999807407006e-1Q,
-9.99999999999999999999999999999999903703503e-1Q,
-9.99999999999999999999999999999999951851751e-1Q,
-9.99999999999999999999999999999999975925876e-1Q,
-9.99999999999999999999999999999999987962938e-1Q,
-9.99999999999999999999999999999999993981469e-1Q,
-9.99999999999999999999999999999999996990734e-1Q,
-9.99999999999999999999999999999999998495367e-1Q,
-9.99999999999999999999999999999999999247684e-1Q,
-9.99999999999999999999999999999999999623842e-1Q,
-9.99999999999999999999999999999999999811921e-1Q,
-9.99999999999999999999999999999999999905960e-1Q,
-9.99999999999999999999999999999999999952980e-1Q,
-9.99999999999999999999999999999999999976490e-1Q,
-9.99999999999999999999999999999999999988245e-1Q,
-9.99999999999999999999999999999999999994123e-1Q,
-9.99999999999999999999999999999999999997061e-1Q,
-9.99999999999999999999999999999999999998531e-1Q,
-9.99999999999999999999999999999999999999265e-1Q,
-9.99999999999999999999999999999999999999633e-1Q,
-9.99999999999999999999999999999999999999816e-1Q,
-9.99999999999999999999999999999999999999908e-1Q,
-9.99999999999999999999999999999999999999954e-1Q,
-9.99999999999999999999999999999999999999977e-1Q,
-9.99999999999999999999999999999999999999989e-1Q,
-9.99999999999999999999999999999999999999994e-1Q,
-9.99999999999999999999999999999999999999997e-1Q,
-9.99999999999999999999999999999999999999999e-1Q,
-9.99999999999999999999999999999999999999999e-1Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q,
-1.00000000000000000000000000000000000000000Q
};
}

// Written by tools/mkhard.py: numbers whose rounding hangs on the last bits of a long product.
#pragma once
#include <stdint.h>
namespace hard
{
static const struct { uint64_t w; int q; } double_texts[] = {
{2470328229206232721,-342},{7410984687618698162,-342},{2717361052126855993,-341},{5681754927174335258,-341},{98694565686809847,-341},{6151117290723519475,-340},
{2247998688577671776,-340},{74109846876186982,-340},{24703282292062327,-340},{7275116635012355363,-339},{6044893176867651468,-339},{27173610521268560,-339},
{61758205730155818,-339},{3760580663320648071,-338},{3514535971691707292,-338},{36313824969331621,-338},{69910288886536386,-338},{2558593056835771416,-337},
{8231059549868291239,-337},{91426847762922673,-337},{34955144443268193,-337},{5354760049802535439,-336},{3196829528461722908,-336},{82956092264974501,-336},
{77308921933009053,-336},{4603490992688200642,-335},{8455712928262066487,-335},{64388364195791694,-335},{95876650002191860,-335},{2301745496344100321,-334},
{7675680876147074132,-334},{89720172099210963,-334},{28762995000657558,-334},{7212455477378188312,-333},{4910709981034087991,-333},{93686587921573762,-333},
{14381497500328779,-333},{4128020635627091690,-332},{9038730616661179681,-332},{75606288961444439,-332},{46322539876888582,-332},{3976115020533381288,-331},
{6713823850378635069,-331},{19753511779977746,-331},{66076051656866328,-331},{5768670582356246184,-330},{6398772761037838774,-330},{97750974221912874,-330},
{11239859153375491,-330},{8968056962875165571,-329},{3010355726914441610,-329},{48875487110956437,-329},{14134730757202822,-329},{9871163680949498054u,-328},
{1505177863457220805,-328},{48994701218807125,-328},{14015516649352134,-328},{8392591456304476166,-327},{8693627028995920327,-327},{46203519299721767,-327},
{36404579055960342,-327},{2577984551429631682,-326},{2879020124121075843,-326},{5155969102859263364,-326},{8693627028995920327,-326},{9709867060335638406u,-326},
{9182564861113423053,-326},{56566656632692798,-326},{18202289527980171,-326},{1618311176722606401,-325},{1091400935110141505,-325},{3236622353445212802,-325},
{2182801870220283010,-325},{6473244706890425604,-325},{4365603740440566020,-325},{8355011004419264453,-325},{8731207480881132040,-325},{65863780201558112,-325},
{46877575454077027,-325},{1053820483224929792,-324},{1339667092118389085,-324},{1926941231313042996,-324},{2664537178048543759,-324},{2935586780753768641,-324},
{5329074356097087518,-324},{6428069773106221457,-324},{8821557348449540334,-324},{32931890100779056,-324},{29134649151282839,-324},{65863780201558112,-324},
{62066539252061895,-324},{94147108517904511,-324},{93755150908154054,-324},{1098995417009133939,-323},{1071733673694711268,-323},{2197990834018267878,-323},
{1141054166511791021,-323},{3784561969809006239,-323},{4007320454448479909,-323},{7569123939618012478,-323},{5843911818193114611,-323},{9517094545682384015u,-323},
{9128433332094328168,-323},{16210548799908596,-323},{12413307850412379,-323},{20348318083379389,-323},{24826615700824758,-323},{61726010918087319,-323},
{49653231401649516,-323},{81393272333517556,-323},{78277088051970491,-323},{1769763818352792601,-322},{1024689029341578882,-322},{1903418909136476803,-322},
{2081625696848055739,-322},{3806837818272953606,-322},{5977566908976798813,-322},{7613675636545907212,-322},{8326502787392222956,-322},{10087429324230086,-322},
{14058129708645520,-322},{14565726941675455,-322},{28116259417291040,-322},{45174933784204147,-322},{43928460071585321,-322},{90349867568408294,-322},
{65581071679223275,-322},{1273245624512970932,-321},{1266796096879991337,-321},{1820765042913666930,-321},{2896455296816120141,-321},{3278666982771196393,-321},
{5792910593632240282,-321},{6168672751954336939,-321},{9408642568927655762u,-321},{11029344697030951,-321},{11246503766916416,-321},{19565741968824250,-321},
{13116214335844655,-321},{40595116720152791,-321},{26232428671689310,-321},{81190233440305582,-321},{52464857343378620,-321},{92625655923760481,-321},
{98480187053777645,-321},{1091169120221604239,-320},{1086009498115220563,-320},{1814315515280687335,-320},{2172018996230441126,-320},{3628631030561374670,-320},
{3986334511511128461,-320},{7614965542072503131,-320},{4712060717623403395,-320},{9864378869898699397u,-320},{9424121435246806790u,-320},{11782876995271643,-320},
{10492971468675724,-320},{23565753990543286,-320},{22275848463947367,-320},{45841602454490653,-320},{44551696927894734,-320},{91683204908981306,-320},
{90393299382385387,-320},{1451452412224549868,-319},{1809155893174303659,-319},{2902904824449099736,-319},{1884824287049361358,-319},{7181593667247691641,-319},
{3769648574098722716,-319},{8860051261097414606,-319},{7539297148197445432,-319},{11232169333451601,-319},{14347925101416018,-319},{18594622087115445,-319},
{17304716560519526,-319},{37189244174230890,-319},{35899338647634971,-319},{74378488348461780,-319},{71798677295269942,-319},{1018080537399738378,-318},
{1029086518489642977,-318},{2047167055889381355,-318},{2058173036979285954,-318},{5470118130128254879,-318},{4116346073958571908,-318},{9586464204086826787u,-318},
{8232692147917143816,-318},{10017659888038016,-318},{10704396765175263,-318},{14875697669692356,-318},{12295886616500518,-318},{29751395339384712,-318},
{40757376429289311,-318},{59502790678769424,-318},{70508771768674023,-318},{96993619177729650,-318},{98367092932004144,-318},{1080816448717765457,-317},
{1102828410897574655,-317},{1637733644711505084,-317},{1375784018349492169,-317},{4105340092868667309,-317},{2751568036698984338,-317},{9040552989182991759,-317},
{5503136073397968676,-317},{9782377943909412108u,-317},{9740547939345491173u,-317},{16165603196288275,-317},{14239101729162254,-317},{19398723835545930,-317},
{30404704925450529,-317},{49803428760996459,-317},{60809409850901058,-317},{99606857521992918,-317},{80894870563584235,-317},{1144212355080072639,-316},
{1764525457436119448,-316},{3118297513605802419,-316},{2699178111426581755,-316},{7066467830657261979,-316},{4568483419407506369,-316},{9983571644086238253u,-316},
{8307094035369355597,-316},{12932482557030620,-316},{13592477601310723,-316},{15518979068436744,-316},{26524960158341343,-316},{31037958136873488,-316},
{42043939226778087,-316},{73081897363651575,-316},{84087878453556174,-316},{1248992205624877805,-315},{1079671244570632702,-315},{2328663450195510507,-315},
{2159342489141265404,-315},{5487199703836678155,-315},{3488812174836873667,-315},{6486393468336580399,-315},{8146139075227894681,-315},{10345986045624496,-315},
{11665976134184702,-315},{14616379472730315,-315},{19546767944116237,-315},{29232758945460630,-315},{45169128506751151,-315},{58465517890921260,-315},
{86553072689249135,-315},{95811194364879224,-315},{99403401691996293,-315},{1097439940767335631,-314},{1195686117034769018,-314},{2194879881534671262,-314},
{2293126057802104649,-314},{4389759763069342524,-314},{3024752684980328403,-314},{8779519526138685048,-314},{7414512448049670927,-314},{9948034251692832395u,-314},
{9989791810313045583u,-314},{11693103578184252,-314},{17310614537849827,-314},{23386207156368504,-314},{34621229075699654,-314},{46772414312737008,-314},
{69242458151399308,-314},{93544828625474016,-314},{85178827712689829,-314},{1677306964213790300,-313},{1561499430623880895,-313},{3238806394837671195,-313},
{3122998861247761790,-313},{6477612789675342390,-313},{6361805256085432985,-313},{7958427401354265916,-313},{9877788822402928323u,-313},{11027683045104239,-313},
{11235021919331150,-313},{22262704964435389,-313},{22470043838662300,-313},{44525409928870778,-313},{35744731267632769,-313},{80270141196503547,-313},
{71489462535265538,-313},{1295522557935068478,-312},{1272361051217086597,-312},{2591045115870136956,-312},{2544722102434173194,-312},{5182090231740273912,-312},
{5089444204868346388,-312},{7935265894636284035,-312},{7749973840892428987,-312},{10578282168330993,-312},{10992959916784815,-312},{19566299703795913,-312},
{17976035070929840,-312},{39132599407591826,-312},{30351920746353817,-312},{83865348210689515,-312},{60703841492707634,-312},{99007085403391816,-312},
{98246176267433387,-312},{1073476457096825792,-311},{1170146058003582949,-311},{1587053178927256807,-311},{1961660860449796536,-311},{2614206622588118837,-311},
{4483221456165987849,-311},{5228413245176237674,-311},{9526342647598370475u,-311},{16773069642137903,-311},{14380828056743872,-311},{33546139284275806,-311},
{31153897698881775,-311},{67092278568551612,-311},{43930771850569731,-311},{97430510042715586,-311},{87861543701139462,-311},{1000047430939683442,-310},
{1002036053185932161,-310},{1381622490195084401,-310},{1905268529519674095,-310},{3846790754981153273,-310},{2726991284448363719,-310},{7693581509962306546,-310},
{4370436794305742967,-310},{9969434146969690737u,-310},{8740873588611485934,-310},{10699947638429171,-310},{12461559079552710,-310},{21399895276858342,-310},
{24923118159105420,-310},{52869108047875363,-310},{39776918824052161,-310},{69484520153945643,-310},{79553837648104322,-310},{1322007147074264415,-309},
{1524214823615739276,-309},{2644014294148528830,-309},{1964883872640494081,-309},{6371574362888042131,-309},{3929767745280988162,-309},{8134250558987061351,-309},
{7859535490561976324,-309},{12391697610207625,-309},{10169387724675190,-309},{23161506717981881,-309},{19938494527284336,-309},{46323013435963762,-309},
{43100001245266217,-309},{62838355311517531,-309},{86200002490532434,-309},{1057605717659411532,-308},{1109485831522557410,-308},{2115211435318823064,-308},
{2493686731470199847,-308},{4230422870637646128,-308},{4608898166789022911,-308},{8839321037426669039,-308},{9217796333578045822,-308},{10017182159012065,-308},
{10007023051651100,-308},{10958241448371653,-308},{18849430112038340,-308},{29807671560409993,-308},{27229261807851957,-308},{59615343120819986,-308},
{54458523615703914,-308},{93290629310067033,-308},{82976990299834889,-308},{1021977891163048958,-307},{1004787815538837987,-307},{1540779029794507738,-307},
{1919254325945884521,-307},{3460033355740392259,-307},{3838508651891769042,-307},{4739536239704315273,-307},{7677017303783538084,-307},{9479072479408630546u,-307},
{9569393784540421999u,-307},{13985796426210426,-307},{11954260505362513,-307},{31096876436689011,-307},{17657953842188708,-307},{42504263110341401,-307},
{48754830278877719,-307},{85008526220682802,-307},{71569603626182499,-307},{1365949081269798613,-306},{1250687484861964481,-306},{2180530471776469245,-306},
{2501374969723928962,-306},{4361060943552938490,-306},{5554117630210985905,-306},{8170754196342748999,-306},{7619386505579621018,-306},{10313639010232144,-306},
{12251192923190071,-306},{19689489763036621,-306},{16814147592651027,-306},{47067217779802357,-306},{25940056931572939,-306},{65319036457646181,-306},
{80695512965104411,-306},{1184968542142106196,-305},{1110823526042197181,-305},{1744424377421175396,-305},{2221647052084394362,-305},{3488848754842350792,-305},
{4443294104168788724,-305},{5949107144258354637,-305},{8886588208337577448,-305},{10163674161902605,-305},{10225651560005198,-305},{18051865546737772,-305},
{10763533555220761,-305},{31890694403450179,-305},{38041285006433471,-305},{63781388806900358,-305},{76082570012866942,-305},{86446197305875599,-305},
{94534341821816818,-305},{1011066790582563874,-304},{1046113940270130020,-304},{1983035714752784879,-304},{1953377708312821273,-304},{3966071429505569758,-304},
{2967139070519186417,-304},{6933210500024756175,-304},{5934278141038372834,-304},{9109023256637304493,-304},{9870691564103978986u,-304},{10363627293008657,-304},
{15923949794934657,-304},{28815399101958533,-304},{27130184425948387,-304},{42801794983935263,-304},{54260368851896774,-304},{70774586747888723,-304},
{93691734483811745,-304},{1386642100004951235,-303},{1163129223055703682,-303},{2773284200009902470,-303},{1774351841023519129,-303},{5546568400019804940,-303},
{4547636041033421599,-303},{6887645661715290258,-303},{9095272082066843198,-303},{12874331381591530,-303},{10042816354331492,-303},{26018119925563187,-303},
{18738346896762349,-303},{37207236631144571,-303},{52305697013506501,-303},{59585470042307339,-303},{89782390807031199,-303},{1109313680003960988,-302},
{1330076322039116282,-302},{2218627360007921976,-302},{2660152644078232564,-302},{4437254720015843952,-302},{3879847645099771199,-302},{8874509440031687904,-302},
{8317102365115615151,-302},{10299465105273224,-302},{10243801814982235,-302},{17848695296454189,-302},{15098460382361930,-302},{35697390592908378,-302},
{32947155678816119,-302},{71394781185816756,-302},{68644546271724497,-302},{86223784405798559,-302},{98785803746157368,-302},{1045285075324688207,-301},
{1046459554181102568,-301},{1997864717972766682,-301},{1440457643056693929,-301},{3995729435945533364,-301},{2416213643873924837,-301},{8456160514130529749,-301},
{4367725645508386653,-301},{9941796394669114183u,-301},{8735451291016773306,-301},{14829003219981803,-301},{12078768305889544,-301},{29658006439963606,-301},
{26907771525871347,-301},{56565777965834953,-301},{53815543051742694,-301},{89955197762517473,-301},{84454727934332955,-301},{1319470789034535533,-300},
{1059425785997462539,-300},{3103643220308534087,-300},{2118851571994925078,-300},{6671988082856531195,-300},{3773001501750387135,-300},{9980287942367455309u,-300},
{7546003003500774270,-300},{12963296541622346,-300},{10213061627530087,-300},{25926593083244692,-300},{16890945586866591,-300},{49887894006498449,-300},
{33781891173733182,-300},{76599429843844465,-300},{90740140516618797,-300},{1334397616571306239,-299},{1219301942589540448,-299},{1624296274681920645,-299},
{2553699559160846687,-299},{3248592549363841290,-299},{5107399118321693374,-299},{7311492709224842831,-299},{6036802402800619416,-299},{10217171012162762,-299},
{10605533004580749,-299},{15319885968768893,-299},{14533769104772519,-299},{30639771937537786,-299},{38103185705923139,-299},{68742957643460925,-299},
{76206371411846278,-299},{92705432676609732,-299},{97024378989009589,-299},{1085354492478518321,-298},{1003643424442865345,-298},{1299437019745536516,-298},
{2113744630242696767,-298},{2343935978206228349,-298},{4227489260485393534,-298},{4432933895127612015,-298},{8709916582255631751,-298},{8865867790255224030,-298},
{9771691325965923012u,-298},{13748591528692185,-298},{16105063544849227,-298},{27497183057384370,-298},{22390241305156059,-298},{54994366114768740,-298},
{49887424362540429,-298},{75028135403767757,-298},{99774848725080858,-298},{1141524840310367086,-297},{1640008091937188477,-297},{1773173558051044806,-297},
{3280016183874376954,-297},{6837756170919334541,-297},{6327880048349645175,-297},{7092694232204179224,-297},{9874227164451734787u,-297},{10998873222953748,-297},
{13747840098359353,-297},{21997746445907496,-297},{20818759007496143,-297},{43995492891814992,-297},{34960596825769723,-297},{87990985783629984,-297},
{69921193651539446,-297},{1015195096762231542,-296},{1265576009669929035,-296},{2030390193524463084,-296},{2531152019339858070,-296},{3300523351571539309,-296},
{5062304038679716140,-296},{6842313319296481731,-296},{8604094006404658562,-296},{10213883504456622,-296},{10134482816207511,-296},{11313470254618864,-296},
{20268965632415022,-296},{22626940509237728,-296},{42816505453403639,-296},{45253881018475456,-296},{87911585095380873,-296},{88229187848377317,-296},
{98351647779259516,-296},{1019752245139378732,-295},{1012460807735943228,-295},{1271956017397935101,-295},{2024921615471886456,-295},{4305692721904047033,-295},
{4049843230943772912,-295},{8355535952847819945,-295},{8099686461887545824,-295},{9152250175342384324,-295},{9861467148995722655u,-295},{10343329182720262,-295},
{17455275917877597,-295},{17952369339152210,-295},{34910551835755194,-295},{35449023840589701,-295},{69365388833795669,-295},{70635799845781445,-295},
{96805012597837190,-295},{1671107190569563989,-294},{1415257699609289868,-294},{3342214381139127978,-294},{1972293429799144531,-294},{6684428762278255956,-294},
{3944586859598289062,-294},{8054349713618239403,-294},{9770793652457109813u,-294},{10370951599663917,-294},{13781934799216190,-294},{14127159969156289,-294},
{27563869598432380,-294},{51716755997312487,-294},{49893896646453611,-294},{58096763725318553,-294},{99787793292907222,-294},{1369920951339983447,-293},
{1033100563034435127,-293},{2739841902679966894,-293},{1544799544954983369,-293},{3941352659867176181,-293},{4627930235402724345,-293},{7882705319734352362,-293},
{9255860470805448690u,-293},{10025726429723818,-293},{11025547839372952,-293},{12348496485407261,-293},{19228414918237894,-293},{24696992970814522,-293},
{38456829836475788,-293},{52628185672741925,-293},{76913659672951576,-293},{98787971883258088,-293},{92261620387306239,-293},{1090762041502206148,-292},
{1029866363303322246,-292},{1746891777938312361,-292},{1851172094161089738,-292},{3598063872099402099,-292},{3702344188322179476,-292},{4762658390724943673,-292},
{7404688376644358952,-292},{9525316781449887346u,-292},{9942438046340996854u,-292},{10525637134548385,-292},{17970091719480620,-292},{21051274269096770,-292},
{32705983707848359,-292},{42102548538193540,-292},{62177767684583837,-292},{84205097076387080,-292},{87439296807499961,-292},{1355801295861538938,-291},
{1564361928307093692,-291},{2433469353473860525,-291},{3128723856614187384,-291},{4866938706947721050,-291},{6535580951477592119,-291},{9733877413895442100u,-291},
{7508968692867136329,-291},{11141873644471615,-291},{14376073375584496,-291},{16841019415277416,-291},{25517947020056111,-291},{33682038830554832,-291},
{42358966435333527,-291},{67364077661109664,-291},{76041005265888359,-291},{1362742837945361894,-290},{1473964696251962227,-290},{1946775482779088420,-290},
{2836707534197324121,-290},{3893550965558176840,-290},{4783483016976412541,-290},{7787101931116353680,-290},{8677033982534589381,-290},{10648884436533031,-290},
{10175741814935837,-290},{23033154394021801,-290},{11674556025092979,-290},{46066308788043602,-290},{23349112050185958,-290},{92132617576087204,-290},
{46855409065804953,-290},{93868003097042943,-290},{93710818131609906,-290},{1045705527033649382,-289},{1134651576685843041,-289},{1557420386223270736,-289},
{1290425052301256722,-289},{3114840772446541472,-289},{4271768157786791187,-289},{6229681544893082944,-289},{8543536315573582374,-289},{9522571601609444771u,-289},
{9878355800218219407u,-289},{16344060890070554,-289},{12147698646690173,-289},{32688121780141108,-289},{21550217452937771,-289},{54238339233078879,-289},
{43100434905875542,-289},{97338774138954421,-289},{86200869811751084,-289},{1459532576116227800,-288},{1156927385340249715,-288},{2153689007320377629,-288},
{3079230915592577401,-288},{4307378014640755258,-288},{6158461831185154802,-288},{8614756029281510516,-288},{8774921792641632317,-288},{14785230602495203,-288},
{10235757892354046,-288},{23922916558672219,-288},{25020988494849249,-288},{47845833117344438,-288},{36707928790141101,-288},{60081809380724805,-288},
{73415857580282202,-288},{1167626060892982240,-287},{1327791824253104041,-287},{1690918053184277743,-287},{2495417885146086281,-287},{3381836106368555486,-287},
{5635169838893859299,-287},{6119338144135424235,-287},{9981671540584345124u,-287},{11796747488909555,-287},{10321876200064082,-287},{12016361876144961,-287},
{12894819425086585,-287},{36488314402905695,-287},{25789638850173170,-287},{72976628805811390,-287},{62277953253078865,-287},{96130895009159688,-287},
{99487540239493147,-287},{1063701865466963046,-286},{1189631867058340767,-286},{1223867628827084847,-286},{2382934749277881067,-286},{2447735257654169694,-286},
{4765869498555762134,-286},{4895470515308339388,-286},{9531738997111524268u,-286},{9790941030616678776u,-286},{9902186971563258365u,-286},{14595325761162278,-286},
{12455590650615773,-286},{29190651522324556,-286},{27050916411778051,-286},{58381303044649112,-286},{54101832823556102,-286},{77638919039567657,-286},
{99644725204926184,-286},{1107960916782005225,-285},{1390880544540955464,-285},{2215921833564010450,-285},{3426095157683597665,-285},{6930685128450981589,-285},
{5642016991247608115,-285},{8863687334256041800,-285},{8706697708088469282,-285},{10698675552732525,-285},{14730706789500410,-285},{16261986840153438,-285},
{29708852563325945,-285},{59665144110977015,-285},{56241567934102607,-285},{61376932199414219,-285},{98788831160707582,-285},{1448932876157225325,-284},
{1128403398249521623,-284},{2014772131675125803,-284},{2256806796499043246,-284},{4271578928174169049,-284},{4513613592998086492,-284},{8543157856348338098,-284},
{9027227185996172984,-284},{11933028822195403,-284},{11883541025330378,-284},{23866057644390806,-284},{17018905290641990,-284},{47732115288781612,-284},
{34037810581283980,-284},{95464230577563224,-284},{57854380428809761,-284},{99333196926222857,-284},{98541392176382457,-284},{1159146300925780260,-283},
{1193164316388318230,-283},{1418189973480966688,-283},{1902259303128801574,-283},{2836379946961933376,-283},{3804518606257603148,-283},{4980673914914652393,-283},
{7609037212515206296,-283},{9961347829829304786u,-283},{9945713603484698174u,-283},{17048597968761005,-283},{13615124232513592,-283},{34097195937522010,-283},
{30663722201274597,-283},{44318436671280209,-283},{61327444402549194,-283},{88636873342560418,-283},{91911986128839751,-283},{1660224638304884131,-282},
{1909062906221309168,-282},{3320449276609768262,-282},{3569287544526193299,-282},{6640898553219536524,-282},{6889736821135961561,-282},{8771585314987240353,-282},
{9269261850820090427u,-282},{13638878375008804,-282},{10173732448767775,-282},{27277756750017608,-282},{30679558296271405,-282},{57957315046289013,-282},
{61359116592542810,-282},{98905622361309041,-282},{64380851858873215,-282},{1228644403477337290,-281},{1477482671393762327,-281},{2457288806954674580,-281},
{2954965342787524654,-281},{4012535255618982621,-281},{5909930685575049308,-281},{8118381224613298851,-281},{6407607221407899382,-281},{10332093398735855,-281},
{12271823318508562,-281},{21141845090763327,-281},{24543646637017124,-281},{42283690181526654,-281},{49087293274034248,-281},{84567380363053308,-281},
{98174586548068496,-281},{99246290121076686,-281},{99983301327148288,-281},{1144661851764876418,-280},{1237972565140210027,-280},{1965831045563739664,-280},
{1642338387597726492,-280},{4671958120434839281,-280},{2544380745888093031,-280},{9343916240869678562u,-280},{5088761491776186062,-280},{14192034835607624,-280},
{17301422056565203,-280},{28384069671215248,-280},{31493456892172827,-280},{59877526563388075,-280},{62986913784345654,-280},{97989342580073097,-280},
{82413309728678963,-280},{1005326388170049392,-279},{1011516065865358311,-279},{2016842454035407703,-279},{1165811504216709203,-279},{4033684908070815406,-279},
{2331623008433418406,-279},{8067369816141630812,-279},{4663246016866836812,-279},{9029135686471667859,-279},{9326492033733673624u,-279},{11975505312677615,-279},
{15084892533635194,-279},{23951010625355230,-279},{27060397846312809,-279},{47902021250710460,-279},{32971143240792833,-279},{95804042501420920,-279},
{65942286481585666,-279},{1021237139782438200,-278},{1080708409234839353,-278},{2101945549017277553,-278},{2161416818469678706,-278},{4203891098034555106,-278},
{4263362367486956259,-278},{8407782196069110212,-278},{8467253465521511365,-278},{11821490788960048,-278},{11569248201690693,-278},{19160808500284184,-278},
{23390738990650741,-278},{38321617000568368,-278},{46781477981301482,-278},{76643234001136736,-278},{93562955962602964,-278},{1242706980805115294,-277},
{1054874789635555172,-277},{1633979423651901120,-277},{1693450693104302273,-277},{4416749732524137473,-277},{3386901386208604546,-277},{5625011887196873859,-277},
{6773802772417209092,-277},{10031509997561722,-277},{10066468563498379,-277},{17071067513827841,-277},{16970170478920099,-277},{25530928494560955,-277},
{33940340957840198,-277},{51061856989121910,-277},{76491888448775123,-277},{85708477191316302,-277},{93512507445149093,-277},{1009827191659515131,-276},
{1010419386175167366,-276},{1307183538921520896,-276},{1584518731527508865,-276},{3763157963063377025,-276},{3169037463055017730,-276},{7526315926126754050,-276},
{5189284040889700227,-276},{8357137114913413487,-276},{9984066933815566884u,-276},{10212371397824382,-276},{15217660061828831,-276},{20424742795648764,-276},
{25430031459653213,-276},{40849485591297528,-276},{45854774255301977,-276},{81698971182595056,-276},{86704259846599505,-276},{1505263185225350810,-275},
{1267614985222007092,-275},{3010526370450701620,-275},{2535229970444014184,-275},{4159317255671036853,-275},{5070459940888028368,-275},{9229777196559065221u,-275},
{7328591596532315477,-275},{11054631413531728,-275},{11173070316662175,-275},{22227701730193903,-275},{17340851969319901,-275},{34563265035509355,-275},
{44573842363518253,-275},{69244968974149157,-275},{89147684727036506,-275},{1204210548180280648,-274},{1164760433383897291,-274},{2590649633403959599,-274},
{1418378181550803067,-274},{5181299266807919198,-274},{2836756363101606134,-274},{9998141459529041790u,-274},{5649084648345347393,-274},{10372064983905374,-274},
{10004406381503763,-274},{13825306014203742,-274},{17876912506659480,-274},{35635386110188513,-274},{27769050931537931,-274},{71270772220377026,-274},
{47553327781294833,-274},{87121881480808637,-274},{95106655562589666,-274},{1064787909278551082,-273},{1004699761524477154,-273},{1999628291905808358,-273},
{1275599759303788121,-273},{3999256583811616716,-273},{2546313903036003267,-273},{7274484635021213195,-273},{5092627806072006534,-273},{8717656084653680694,-273},
{9461227079541992831u,-273},{10965493688858636,-273},{15851109260431611,-273},{23717444439082193,-273},{31702218520863222,-273},{36350956286175303,-273},
{63404437041726444,-273},{77587528143923581,-273},{82473143715496556,-273},{1454896927004242639,-272},{1456851173232871829,-272},{2909793854008485278,-272},
{2185765321406465041,-272},{5819587708016970556,-272},{3639685125296393085,-272},{8727427315796826644,-272},{8003398783194806407,-272},{13205967987882542,-272},
{10916143424724814,-272},{26411935975765084,-272},{14015301934932868,-272},{52823871951530168,-272},{27053480755551141,-272},{99785005217172766,-272},
{54106961511102282,-272},{1362851929635807790,-271},{1001531497067365217,-271},{1452747256152750530,-271},{2183029376686384175,-271},{2905494512305501060,-271},
{5093214079940595291,-271},{6544397939110442469,-271},{8732117506745536700,-271},{10637812435065945,-271},{10077197588403469,-271},{20884775624406052,-271},
{10774013279386826,-271},{41769551248812104,-271},{21352601935910733,-271},{83539102497624208,-271},{42705203871821466,-271},{98875011616089685,-271},
{85410407743642932,-271},{1016141380815473695,-270},{1022394968747087103,-270},{2181465979703480823,-270},{1746423501349107340,-270},{4362931959406961646,-270},
{2473578827916934281,-270},{6836510787323895927,-270},{4947157655833868562,-270},{9745132093595203691u,-270},{9894315311667737124u,-270},{16825075273242593,-270},
{10143522681840229,-270},{33650150546485186,-270},{17160251397873754,-270},{67300301092970372,-270},{34199309001010825,-270},{99545363865352007,-270},
{68398618002021650,-270},{1247955583006752439,-269},{1397138801079285872,-269},{1889353131490027365,-269},{2794277602158571744,-269},{4683630733648599109,-269},
{5588555204317143488,-269},{9367261467297198218u,-269},{8760703432773720705,-269},{13538230067739242,-269},{10357505011734707,-269},{26631679799554815,-269},
{13679723600404330,-269},{27804227536732329,-269},{29367624519635681,-269},{55608455073464658,-269},{87321175067455367,-269},{1179349360539110827,-268},
{1237057615321455444,-268},{1511482505192021892,-268},{1752140686554744141,-268},{3022965010384043784,-268},{4592155770358410293,-268},{6045930020768087568,-268},
{9184311540716820586,-268},{10652671919821926,-268},{10162080388871788,-268},{15588158634007051,-268},{18714952599813755,-268},{25459132062377301,-268},
{43147090405264311,-268},{51454666850731209,-268},{86294180810528622,-268},{90938560564212209,-268},{92011366016165423,-268},{1022554556403445983,-267},
{1103097569375184833,-267},{1644335763053186318,-267},{1619287428693579715,-267},{4326449254636081441,-267},{3238574857387159430,-267},{8652898509272162882,-267},
{7565024112023240871,-267},{9790869575240298099u,-267},{9590482900363445275u,-267},{17151555616910403,-267},{14971962079851004,-267},{34303111233820806,-267},
{32123517696761407,-267},{68606222467641612,-267},{43557888108035009,-267},{70785816004701011,-267},{87115776216070018,-267},{1553082157380018739,-266},
{1295429942954863772,-266},{3263623191746766033,-266},{2590859885909727544,-266},{5854483077656493577,-266},{5181719771819455088,-266},{7715314118180880489,-266},
{9690676237801871687u,-266},{10455252451254521,-266},{10233894834233284,-266},{20910504902509042,-266},{20689147285487805,-266},{49875311102191969,-266},
{41378294570975610,-266},{99750622204383938,-266},{74702287844777335,-266},{1377018387071422689,-265},{1019172835207841310,-265},{2207240569895189733,-265},
{1534477264058151244,-265},{4414481139790379466,-265},{3741717833953340977,-265},{8828962279580758932,-265},{8156198973743720443,-265},{10329234407672373,-265},
{11054664199022202,-265},{13329597309520690,-265},{14940457568955467,-265},{26659194619041380,-265},{29880915137910934,-265},{84810164635428471,-265},
{59761830275821868,-265},{93749896400687304,-265},{95200755983386962,-265},{1017448889125483591,-264},{1034056749865335306,-264},{2034897778250967182,-264},
{1362134472413928693,-264},{2488942602388943413,-264},{4305121898940848337,-264},{4977885204777886826,-264},{8610243797881696674,-264},{9955770409555773652u,-264},
{9786875510076266539u,-264},{10663677847616552,-264},{17107118885355660,-264},{21327355695233104,-264},{34214237770711320,-264},{42654711390466208,-264},
{66704529459064921,-264},{85309422780932416,-264},{87033368863290135,-264},{1123486557827044377,-263},{1816179296551904924,-263},{2024933061807056153,-263},
{3632358593103809848,-263},{3827826069767079705,-263},{7264717186207619696,-263},{7655652139534159410,-263},{9760302932892503795u,-263},{11162935993120497,-263},
{10364122960314185,-263},{25647444134211337,-263},{17406673772658027,-263},{54616460416393017,-263},{31491775397345711,-263},{99268204388875005,-263},
{59661978646721079,-263},{1209645321647481143,-262},{1408535426472117419,-262},{2396140694272565961,-262},{1952060586578500759,-262},{5657291654910866001,-262},
{3039110906791267439,-262},{7831392295336399361,-262},{9561412828067867519u,-262},{11436022492778558,-262},{10009250595984640,-262},{19853640877775001,-262},
{13261024588532353,-262},{43028853903520345,-262},{23200477029094363,-262},{89480335968407109,-262},{46400954058188726,-262},{99242940385525986,-262},
{92801908116377452,-262},{1004308874036056267,-261},{1170190679925421331,-261},{1175219583265844834,-261},{2335751370046363397,-261},{3483191014485332641,-261},
{3473931034876374111,-261},{8701032551506612705,-261},{5213211547216800799,-261},{9377011062960585395u,-261},{9981944073203592158u,-261},{12581551756928873,-261},
{14594706248390294,-261},{20533113709378481,-261},{33819402301259853,-261},{41066227418756962,-261},{72268794406998971,-261},{77502465033034659,-261},
{98237690769205292,-261},{1740206510301322541,-260},{1736502518457739129,-260},{3480413020602645082,-260},{3473005036915478258,-260},{6960826041205290164,-260},
{5207655559451425681,-260},{8706588539271987823,-260},{8676956604523320527,-260},{10789658391410806,-260},{14212286552777225,-260},{15097331056550641,-260},
{28424573105554450,-260},{30194662113101282,-260},{57775144172004753,-260},{59463326265306711,-260},{98882325047884152,-260},{1398091595190791492,-259},
{1035604724940551677,-259},{2796183190381582984,-259},{1723538547005197187,-259},{5592366380763165968,-259},{3099406191134488207,-259},{9446378247146801101u,-259},
{6198812382268976414,-259},{10854121819278692,-259},{11369829242221780,-259},{12448264029598854,-259},{22739658484443560,-259},{23970530098301855,-259},
{46405314929782973,-259},{47015062235707857,-259},{91884631898670093,-259},{95377789972272859,-259},{98577451394921710,-259},{1188007456727814427,-258},
{1013380773879051205,-258},{2376014913455628854,-258},{1448365018179338983,-258},{4752029826911257708,-258},{2433696320131343169,-258},{8576409758546225545,-258},
{4867392640262686338,-258},{9736367743346992953u,-258},{9734785280525372676u,-258},{10514210000216595,-258},{18191726787554848,-258},{19445957178812913,-258},
{36383453575109696,-258},{70645378128256257,-258},{66941386284672845,-258},{76201365893631375,-258},{96842854133511570,-258},{1715281951709245109,-257},
{1066085271298004227,-257},{3801307368964682111,-257},{2132170542596008454,-257},{5191990980468306779,-257},{5933477911560690565,-257},{8901008098751845986,-257},
{7973358203475556115,-257},{12963971452541942,-257},{13388277256934569,-257},{15240273178726275,-257},{26776554513869138,-257},{42016827692595413,-257},
{53553109027738276,-257},{84033655385190826,-257},{95569936720333689,-257},{1223928175148919330,-256},{1186695582312138113,-256},{2447856350297838660,-256},
{1594671640695111223,-256},{5599967038851279889,-256},{3189343281390222446,-256},{8789310320241502335,-256},{6378686562780444892,-256},{10031732518519452,-256},
{11728955736089960,-256},{12192218542981020,-256},{23728499878123883,-256},{24384437085962040,-256},{35920718421104903,-256},{48768874171924080,-256},
{71841436842209806,-256},{97537748343848160,-256},{98537966739537010,-256},{1179565556309105925,-255},{1030635184961981057,-255},{1757862064048300467,-255},
{1557439047858330006,-255},{3515724128096600934,-255},{3315301111906630473,-255},{7031448256193201868,-255},{9041225981274318389,-255},{9998960556772875406u,-255},
{9829690694693951416u,-255},{18566285498606166,-255},{11536281335142863,-255},{19507549668769632,-255},{21290056169527679,-255},{39015099337539264,-255},
{42580112339055358,-255},{78030198675078528,-255},{85160224678110716,-255},{1486458857714628558,-254},{1647906783302887309,-254},{2972917715429257116,-254},
{3134365641017515867,-254},{7231871272383172329,-254},{4982695440510373637,-254},{8356459188319571675,-254},{9965390881020747274u,-254},{12397528033651221,-254},
{10655030268720728,-254},{23052558302371949,-254},{21310060537441456,-254},{46105116604743898,-254},{44362618839813405,-254},{72722687908631941,-254},
{88725237679626810,-254},{1124587915936399346,-253},{1447483767112916848,-253},{1671291837663914335,-253},{3087595532295461815,-253},{3149955677258200551,-253},
{6175191064590923630,-253},{6299911354516401102,-253},{9710402737988380419u,-253},{10615021532893174,-253},{11027535063203359,-253},{13435024945444006,-253},
{21642556596096533,-253},{47182622252364237,-253},{43285113192193066,-253},{94365244504728474,-253},{90467735444557303,-253},{99685181443209706,-253},
{98490379807830324,-253},{1053772731204821972,-252},{1235038212918184726,-252},{2481438942192634817,-252},{2096182946053378579,-252},{4962877884385269634,-252},
{3433216416184510047,-252},{6107283356446772983,-252},{6866432832369020094,-252},{19652550712979929,-252},{15755041652808758,-252},{39305101425959858,-252},
{31510083305617516,-252},{78610202851919716,-252},{63020166611235032,-252},{86405220972262058,-252},{94860260741100696,-252},{1001104382648839021,-251},
{1003510269243812823,-251},{1529661468200759587,-251},{1525116461658253441,-251},{2291083447394259771,-251},{3050232923316506882,-251},{4582166894788519542,-251},
{5341316370710766653,-251},{9923483265499286195u,-251},{8368824261314742805,-251},{10067521391595415,-251},{14295041276014734,-251},{17862539511937757,-251},
{30862585823282541,-251},{33452575752622441,-251},{61725171646565082,-251},{64632648233991809,-251},{98452807309346361,-251},{1527388964929506514,-250},
{1371923064511052175,-250},{1984696653099857239,-250},{2743846129022104350,-250},{3969393306199714478,-250},{5487692258044208700,-250},{7938786612399428956,-250},
{8387004287484767389,-250},{10326520384529405,-250},{10527031712310558,-250},{13835530955299591,-250},{23326566695874189,-250},{25398558639346109,-250},
{48925636663001451,-250},{50797117278692218,-250},{97851273326002902,-250},{1042624101909469838,-249},{1097538451608841740,-249},{1408470252445750418,-249},
{2533465878904278109,-249},{3941936131350028527,-249},{5066931757808556218,-249},{5405320733495150847,-249},{6530316359953678538,-249},{10025815727457684,-249},
{10052442524521823,-249},{11977426072740902,-249},{20024755319451195,-249},{21682348874228731,-249},{40049510638902390,-249},{61731859513131121,-249},
{57186852970624975,-249},{96006544176576291,-249},{86916531091563999,-249},{1015166927059783887,-248},{1006264049569420670,-248},{1801773577831716949,-248},
{1756061522574146784,-248},{3603547155663433898,-248},{2387127418689765877,-248},{5990674574353199775,-248},{4774254837379531754,-248},{8697786379845956807,-248},
{9548509674759063508u,-248},{15982377136631141,-248},{11437370594124995,-248},{32002181392192097,-248},{22874741188249990,-248},{64004362784384194,-248},
{54876922580442087,-248},{82296670311198223,-248},{91498964752999960,-248},{1198134914870639955,-247},{1161565270664583823,-247},{2396269829741279910,-247},
{2323130541329167646,-247},{4792539659482559820,-247},{5935820108044115577,-247},{9585079318965119640u,-247},{8295520293579339355,-247},{12783035620345261,-247},
{10003234786899778,-247},{18269851255456140,-247},{18299792950599992,-247},{27397291459398247,-247},{45741996952714017,-247},{54794582918796494,-247},
{91483993905428034,-247},{1216419736973668021,-246},{1070141160149443493,-246},{1917015863793023928,-246},{1659104058715867871,-246},{3834031727586047856,-246},
{3318208117431735742,-246},{7668063455172095712,-246},{6636416234863471484,-246},{10258280917393162,-246},{10010720210685741,-246},{14615881004364912,-246},
{12811352150177187,-246},{29231762008729824,-246},{34765115351868407,-246},{49321112965945615,-246},{78672641755250847,-246},{98642225931891230,-246},
{84205995098389430,-246},{1000852068435968816,-245},{1027797023609986641,-245},{1739942135096143988,-245},{1836177787412747811,-245},{3479884270192287976,-245},
{3576119922508891799,-245},{4607767142817516027,-245},{7152239845017783598,-245},{9215534285635032054,-245},{9600476894901447346u,-245},{11307845676539303,-245},
{16119387478002796,-245},{27427233154542099,-245},{16841199019677886,-245},{62553254277248051,-245},{33682398039355772,-245},{94311356681840690,-245},
{67364796078711544,-245},{1314965186223632132,-244},{1507436490856839778,-244},{2352001397567059925,-244},{3014872981713679556,-244},{4704002795134119850,-244},
{6307674938307563451,-244},{9408005590268239700u,-244},{7248475497334387421,-244},{10586034134864213,-244},{12510329769627346,-244},{18862271336368138,-244},
{16552474403007850,-244},{27715957771212135,-244},{43113533707539841,-244},{80838076380276117,-244},{60820906577227835,-244},{1317120782637553558,-243},
{1039191807757349219,-243},{1881601118053647940,-243},{1979992366784173189,-243},{3763202236107295880,-243},{4614233932059280305,-243},{7526404472214591760,-243},
{9882717062609494537u,-243},{10162785420963003,-243},{10315380511290544,-243},{11086383108484854,-243},{12164181315445567,-243},{23250564423930421,-243},
{24328362630891134,-243},{46501128847860842,-243},{47578927054821555,-243},{93002257695721684,-243},{95157854109643110,-243},{1066476967331599333,-242},
{1002575261223816900,-242},{1505280894442918352,-242},{1845693572823712122,-242},{3010561788885836704,-242},{3691387145647424244,-242},{6021123577771673408,-242},
{5026461700899945711,-242},{9685934565148444039u,-242},{8797577321359330794,-242},{16691575956325090,-242},{10593583617925024,-242},{32674150609053679,-242},
{19031570821928622,-242},{56016914258825153,-242},{38063141643857244,-242},{94080055902682397,-242},{76126283287714488,-242},{1403157090928680221,-241},
{1675487233633315237,-241},{2806314181857360442,-241},{3350974467266630474,-241},{4345636344138358171,-241},{6701948934533260948,-241},{8691272688276716342,-241},
{8513601239518893693,-241},{11486983373203631,-241},{12065621417333601,-241},{25997520226523643,-241},{24131242834667202,-241},{51995040453047286,-241},
{50128763061190845,-241},{69948813068015195,-241},{66216258284302313,-241},{1264662831749202296,-240},{1086991382991379647,-240},{2716313863564868909,-240},
{2173982765982759294,-240},{5432627727129737818,-240},{3440974785559122007,-240},{5974958824711847433,-240},{6881949571118244014,-240},{10503298698182682,-240},
{10025752612238169,-240},{13989762613603039,-240},{20051505224476338,-240},{27979525227206078,-240},{40103010448952676,-240},{55959050454412156,-240},
{80206020897905352,-240},{97942973945861810,-240},{86716038293442090,-240},{1075345443855577562,-239},{1015456965922818504,-239},{1991652941570615811,-239},
{1557788063504928119,-239},{3983305883141231622,-239},{3115576127009856238,-239},{7966611766282463244,-239},{4890296629547628203,-239},{9228945410204505123u,-239},
{9780593259095256406u,-239},{15575366614148987,-239},{12123485221746598,-239},{31150733228297974,-239},{24246970443493196,-239},{62301466456595948,-239},
{46164753059825975,-239},{90000318292491533,-239},{92329506119651950,-239},{1025571311247641982,-238},{1735060715254659863,-238},{2918473581618568443,-238},
{2760632026502301845,-238},{4338249983648786015,-238},{7019961232592954561,-238},{7177802787709221159,-238},{9543830926420856509u,-238},{10596943029590856,-238},
{12926130856751273,-238},{23523073886342129,-238},{18465901223930390,-238},{41988975110272519,-238},{36931802447860780,-238},{93693498537277611,-238},
{73863604895721560,-238},{1183333106962290399,-237},{1104252810600920738,-237},{1735299993459514406,-237},{2208505621201841476,-237},{5442502794249706753,-237},
{4417011242403682952,-237},{6941199973838057624,-237},{5915708421992033823,-237},{10018420742972129,-237},{11007863922856637,-237},{14852480380762493,-237},
{14772720979144312,-237},{29625201359906805,-237},{29545441958288624,-237},{59170643318195429,-237},{59090883916577248,-237},{88552300475057055,-237},
{99677586657736504,-237},{1120132677394489215,-236},{1041052381033119554,-236},{1593338305136816285,-236},{1971902807330677941,-236},{3186676610273632570,-236},
{3943805614661355882,-236},{4969297166507379683,-236},{7887611229322711764,-236},{9938594333014759366u,-236},{9114117410175089458,-236},{11850080543962722,-236},
{11770321142344541,-236},{23700161087925444,-236},{23620401686307263,-236},{63120670166183003,-236},{47240803372614526,-236},{78920777558133299,-236},
{94481606745229052,-236},{1274670644109453028,-235},{1015899824248588170,-235},{2549341288218906056,-235},{3177084882676196939,-235},{3953397342258791513,-235},
{6354169765352393878,-235},{8016996639253144193,-235},{8127198593988705360,-235},{12656037793883873,-235},{12496518990647511,-235},{25312075587767746,-235},
{15720347990332115,-235},{41032423578099861,-235},{53608701970365553,-235},{82064847156199722,-235},{72473119558764091,-235},{1182672389282029842,-234},
{1292874344017591009,-234},{2475546733299620851,-234},{1625439718797741072,-234},{5431247951217962175,-234},{3250879437595482144,-234},{9902186933198483404u,-234},
{6021604390572243815,-234},{10252445277696188,-234},{10594125351484021,-234},{15219149113307920,-234},{19525135268659095,-234},{34744284381967015,-234},
{39050270537318190,-234},{69488568763934030,-234},{87692268672072011,-234},{91224324810587084,-234},{99630471851392255,-234},{1086249590243592435,-233},
{1078380257108297274,-233},{2172499180487184870,-233},{1204320878114448763,-233},{3376820058601633633,-233},{2408641756228897526,-233},{6753640117203267266,-233},
{5785461814830531159,-233},{9666044357456770748u,-233},{9634567024915590104u,-233},{13897713752786806,-233},{15620108214927276,-233},{27795427505573612,-233},
{31240216429854552,-233},{70349765995004265,-233},{47721521875852063,-233},{81663888054580366,-233},{73794554919285205,-233},{1737999344389747896,-232},
{1150796896457870103,-232},{2507820386406759685,-232},{2888796240847617999,-232},{5015640772813519370,-232},{6364794929627113791,-232},{7920175679931727691,-232},
{9444079097695160947u,-232},{14069953199000853,-232},{10334366772842820,-232},{28139906398001706,-232},{14758910983857041,-232},{42898817381858747,-232},
{29517821967714082,-232},{85797634763717494,-232},{59035643935428164,-232},{1003128154562703874,-231},{1038078006752671641,-231},{2006256309125407748,-231},
{2733258165817156609,-231},{4012512618250815496,-231},{4739514474942564357,-231},{8025025236501630992,-231},{7437822788569753199,-231},{10625164274719913,-231},
{10784428387911551,-231},{13380995414144665,-231},{21568856775823102,-231},{26761990828289330,-231},{40302250355625633,-231},{88473833846546427,-231},
{67064241183914963,-231},{99178630177862159,-231},{94781816691354121,-231},{1065343384574888430,-230},{1115662185500358153,-230},{2130686769149776860,-230},
{1543484321217899067,-230},{4669614770562628823,-230},{2678727410172723031,-230},{9339229541125257646u,-230},{4949213588082370959,-230},{9697151972462863026u,-230},
{9898427176164741918u,-230},{10704796331315732,-230},{14547033515191221,-230},{21409592662631464,-230},{25251829846506953,-230},{46661422509138417,-230},
{50503659693013906,-230},{93322845018276834,-230},{81426415931562001,-230},{1704549415319821488,-229},{1153139210521704233,-229},{3409098830639642976,-229},
{2306278421043408466,-229},{7226438893542361055,-229},{4204315609823741829,-229},{9962224232190895977u,-229},{8000389987384408555,-229},{11711570319170650,-229},
{10869179375377879,-229},{22580749694548529,-229},{21738358750755758,-229},{45161499389097058,-229},{44319108445304287,-229},{72426877211313847,-229},
{88638216890608574,-229},{1445287778708472211,-228},{1004159614869978407,-228},{2890575557416944422,-228},{1600077997476881711,-228},{5781151114833888844,-228},
{3200155994953763422,-228},{9929337300615477276u,-228},{6400311989907526844,-228},{10211647199129291,-228},{11432176869885586,-228},{21643824069014877,-228},
{14148419064745661,-228},{46192959696371591,-228},{28296838129491322,-228},{92385919392743182,-228},{56593676258982644,-228},{95755483167914266,-228},
{97732290292597609,-228},{1100891521774497709,-227},{1129920677706442808,-227},{2230812199480940517,-227},{1443358890886735410,-227},{4461624398961881034,-227},
{2478476549510395717,-227},{9331490030186837171u,-227},{4956953099020791434,-227},{9973797559121316783u,-227},{9913906198041582868u,-227},{17896121566880269,-227},
{13061922186801631,-227},{35792243133760538,-227},{26123844373603262,-227},{71584486267521076,-227},{38697554692102375,-227},{79323997205941551,-227},
{77395109384204750,-227},{1703001513132137393,-226},{1154687112709388328,-226},{3406003026264274786,-226},{2041206161315375515,-226},{4630726723053500095,-226},
{6263691652105800507,-226},{9261453446107000190u,-226},{8713139045684251125,-226},{12764203135525466,-226},{10835315313788665,-226},{29791127200050511,-226},
{15479021876840950,-226},{51461757827627841,-226},{30958043753681900,-226},{82419801581309741,-226},{61916087507363800,-226},{1035808224695249832,-225},
{1462481472817502301,-225},{1852290689221400038,-225},{1742627809136850225,-225},{3704581378442800076,-225},{3594918498358250263,-225},{7409162756885600152,-225},
{7299499876801050339,-225},{11835461822915009,-225},{11144895751325484,-225},{22980357574240493,-225},{12383217501472760,-225},{45270149076891461,-225},
{24766435002945520,-225},{79943158081015189,-225},{49532870005891040,-225},{98136524941267697,-225},{99065740011782080,-225},{1026039763908389529,-224},
{1213850330287821766,-224},{1503765127394029993,-224},{1394102247309480180,-224},{3007530254788059986,-224},{2897867374703510173,-224},{6015060509576119972,-224},
{5795734749407020346,-224},{9968046578054201628u,-224},{9974199702259744595u,-224},{10182800429814018,-224},{19398808359402701,-224},{30134061646488339,-224},
{19813148002356416,-224},{70036584079836981,-224},{39626296004712832,-224},{91230864225372447,-224},{79252592009425664,-224},{1334607558016683770,-223},
{1115281797847584144,-223},{3674834033796401871,-223},{2230563595695168288,-223},{7349668067592803742,-223},{4461127191390336576,-223},{9671241546370435829u,-223},
{8922254382780673152,-223},{10099932501223275,-223},{15448770429910618,-223},{29968325789306853,-223},{19757902716629254,-223},{59936651578613706,-223},
{49726228505936107,-223},{90125958510829207,-223},{69705112365474009,-223},{1067686046413347016,-222},{1320136180800608213,-222},{3140991010589728363,-222},
{2387822227213955229,-222},{6281982021179456726,-222},{3770025536664876127,-222},{9547107289069810459u,-222},{6534432155566717923,-222},{12340900144376578,-222},
{11456975572741986,-222},{22109360931236881,-222},{13587452644440965,-222},{44218721862473762,-222},{29747344646398205,-222},{97763942225990531,-222},
{59494689292796410,-222},{99679213443662636,-222},{99724200005150960,-222},{1055272620683284479,-221},{1258069052150295528,-221},{2110545241366568958,-221},
{1709133998218557317,-221},{4221090482733137916,-221},{3819679239585126275,-221},{8040769722318264191,-221},{7639358479170252550,-221},{12927913601565792,-221},
{11898937858559282,-221},{25855827203131584,-221},{36211301447181101,-221},{51711654406263168,-221},{72422602894362202,-221},{91009883082463799,-221},
{95191502868474256,-221},{1001437297977023874,-220},{1005618917763034331,-220},{1929282938982062151,-220},{1527871695834050510,-220},{3457154634816112661,-220},
{3055743391668101020,-220},{4743343260804154095,-220},{6111486783336202040,-220},{9486686521608308190u,-220},{8446362585252286289,-220},{12825016027265141,-220},
{12001835432859933,-220},{25650032054530282,-220},{24003670865719866,-220},{37240277190187611,-220},{48007341731439732,-220},{85247618921627343,-220},
{96014683462879464,-220},{1477862433950444512,-219},{1222297356667240408,-219},{1897337304321661638,-219},{2444594713334480816,-219},{3794674608643323276,-219},
{4889189426668961632,-219},{7589349217286646552,-219},{9778378853337923264u,-219},{12413425730062537,-219},{12591205211740462,-219},{24826851460125074,-219},
{21356349600826317,-219},{46183201060951391,-219},{42712699201652634,-219},{92366402121902782,-219},{60420767461502269,-219},{1305788760686835513,-218},
{1002460815037597400,-218},{2611577521373671026,-218},{1307665619259463079,-218},{5223155042747342052,-218},{2615331238518926158,-218},{9987493954025264785u,-218},
{5227049751593211219,-218},{10198170199882761,-218},{10141034388800164,-218},{17636956467178465,-218},{10695952748580951,-218},{38886638378998027,-218},
{21391905497161902,-218},{81386002202637151,-218},{42783810994323804,-218},{97742946401734556,-218},{81954896544006511,-218},{1043908463460540191,-217},
{1000668551485338255,-217},{2080591476031798188,-217},{1047577585585426902,-217},{4157570226618955279,-217},{2091542445726212707,-217},{8315140453237910558,-217},
{4183084891452425414,-217},{9987381160664773557u,-217},{8366169782904850828,-217},{14109565173742772,-217},{10724397465649419,-217},{31831855792126641,-217},
{17836069486657741,-217},{63663711584253282,-217},{35672138973315482,-217},{98425619611377788,-217},{67731552501989867,-217},{1667363361181151428,-216},
{1001357258566119106,-216},{2780715108531144541,-216},{2787940559420426735,-216},{5561430217062289082,-216},{4176491750963678457,-216},{9723471066247403151u,-216},
{6953594134050181901,-216},{12010197227922437,-216},{10024608150375974,-216},{24020394455844874,-216},{16436490856110851,-216},{51653514356330845,-216},
{29260256267580605,-216},{99694303268020593,-216},{54907787090520113,-216},{1100725321989606306,-215},{1115176223768170694,-215},{1384938466098610625,-215},
{2230352447536341388,-215},{4169266300074396263,-215},{3061315527195507763,-215},{8338532600148792526,-215},{9737921968025967539u,-215},{10330702871266169,-215},
{10060859706978390,-215},{20661405742532338,-215},{11704102507032242,-215},{41322811485064676,-215},{23408205014064484,-215},{82645622970129352,-215},
{43203684583487871,-215},{96649462492077861,-215},{86407369166975742,-215},{1009200528899250911,-214},{1067004136013508463,-214},{1107950772878888500,-214},
{2064159831604508113,-214},{3615290913634952013,-214},{2728930295331841213,-214},{7230581827269904026,-214},{5457860590663682426,-214},{9889663682179236426u,-214},
{8629971195147079039,-214},{15806579505097651,-214},{10085827094554013,-214},{31613159010195302,-214},{20171654189108026,-214},{66839043465031701,-214},
{36730582933574955,-214},{99956900953965559,-214},{73461165867149910,-214},{1240904865624355120,-213},{1399389367877175013,-213},{1772721236606221600,-213},
{3349382728144018773,-213},{4413015470107751733,-213},{6698765456288037546,-213},{8826030940215503466,-213},{9693603937110811999u,-213},{11200173426221682,-213},
{10958842031356088,-213},{18546290012936673,-213},{25771740902218867,-213},{37092580025873346,-213},{40463974075648849,-213},{55397538643944425,-213},
{80927948151297698,-213},{1276359290356479552,-212},{1293026093680801717,-212},{1418176989284977280,-212},{2285749986180285813,-212},{3703926975465263093,-212},
{4571499972360571626,-212},{7407853950930526186,-212},{9409968539253816543u,-212},{10501761476780022,-212},{10596844939057697,-212},{11079507728788885,-212},
{14450901778564388,-212},{22159015457577770,-212},{29962212598868827,-212},{44318030915155540,-212},{60984834239477705,-212},{88636061830311080,-212},
{86515243746830978,-212},{1087874542119879762,-211},{1007574144819614719,-211},{1134541591427981824,-211},{1428177071279570579,-211},{2562718662707552403,-211},
{2856354142559141158,-211},{5125437325415104806,-211},{7127551913738395163,-211},{9076332731423854592,-211},{9423301981913274275u,-211},{16590736554500025,-211},
{12196966847895541,-211},{17727212366062216,-211},{21060573030926649,-211},{35454424732124432,-211},{38787785396988865,-211},{70908849464248864,-211},
{74242210129113297,-211},{1708479108471701602,-210},{1115814823436037269,-210},{3416958216943403204,-210},{1884660396382654855,-210},{6833916433886806408,-210},
{5301618613326058059,-210},{8131305870566283753,-210},{9070939406091367769,-210},{13272589243600020,-210},{11090917744262206,-210},{26545178487200040,-210},
{15515114158795546,-210},{27696867652726659,-210},{31030228317591092,-210},{55393735305453318,-210},{62060456635182184,-210},{1272819933224852880,-209},
{1248250429770228415,-209},{2545639866449705760,-209},{1507728317106123884,-209},{4547754454772996117,-209},{3015456634212247768,-209},{9095508909545992234,-209},
{6030913268424495536,-209},{10618071394880016,-209},{10206078461355538,-209},{17490789191371121,-209},{13745435592982210,-209},{31236224784353331,-209},
{27490871185964420,-209},{79551245826553305,-209},{54981742371928840,-209},{90787306621720038,-209},{94982070350302036,-209},{1018255946579882304,-208},
{1109702361141207551,-208},{2036511893159764608,-208},{1492986615033349205,-208},{4073023786319529216,-208},{2521070362995081295,-208},{7602522294512643029,-208},
{5042140725990162590,-208},{9311720539946687526u,-208},{9540756173853909777u,-208},{15910249165310661,-208},{10996348474385768,-208},{31820498330621322,-208},
{26906597639696429,-208},{63640996661242644,-208},{58727095970317751,-208},{74187935005435325,-208},{97798589176935930,-208},{1737914570153094767,-207},
{1008428145198032518,-207},{2932303862179774131,-207},{2016856290396065036,-207},{5864607724359548262,-207},{4033712580792130072,-207},{9154475717837090950,-207},
{8067425161584260144,-207},{10067513702630751,-207},{14022565110431784,-207},{14837587001087065,-207},{24473618526312079,-207},{53861137743549051,-207},
{48947237052624158,-207},{63880708982023609,-207},{97894474105248316,-207},{1281626600497192733,-206},{1104280351084260968,-206},{1830895143567418190,-206},
{2385906951581453701,-206},{5681518210002806443,-206},{4216802095148871891,-206},{6413876267429773719,-206},{8433604190297743782,-206},{10848935491359719,-206},
{10465395778110175,-206},{14741702072774679,-206},{17613334544679706,-206},{32355036617454385,-206},{35226669089359412,-206},{67581705706813797,-206},
{70453338178718824,-206},{97832189278862243,-206},{91000590021689630,-206},{1016112056487658100,-205},{1145492865910657375,-205},{1464716114853934552,-205},
{2090666422633142769,-205},{3555382537487077321,-205},{4181332845266285538,-205},{7110765074974154642,-205},{7736715382753362859,-205},{9839877995493851765u,-205},
{9330812307030296686u,-205},{12942014646981754,-205},{15813647118886781,-205},{25884029293963508,-205},{28755661765868535,-205},{54639691059832043,-205},
{57511323531737070,-205},{97792852232043978,-205},{73810132237077733,-205},{1296962953438989285,-204},{1058271292258871312,-204},{2593925906877978570,-204},
{3219876214657186787,-204},{5187851813755957140,-204},{4084518183616512977,-204},{9272369997372470117u,-204},{8169036367233025954,-204},{13427176233435636,-204},
{11502264706347414,-204},{27801073411688077,-204},{23004529412694828,-204},{50805602824382905,-204},{46009058825389656,-204},{75735043764165955,-204},
{66141955766179457,-204},{1037570362751191428,-203},{1317663882946669169,-203},{2075140725502382856,-203},{2355234245697860597,-203},{5813802121535165357,-203},
{3046947820865321549,-203},{9964083572539931069u,-203},{6093895641730643098,-203},{10161120564876581,-203},{10539808942803303,-203},{20322241129753162,-203},
{15904385508686635,-203},{40644482259506324,-203},{45819714636426295,-203},{81288964519012648,-203},{91639429272852590,-203},{94416126468158092,-203},
{96814661649772561,-203},{1050723016228841975,-202},{1172984694692513152,-202},{2101446032457683950,-202},{1225595308603115340,-202},{4202892064915367900,-202},
{2994337206954719361,-202},{7197229271870087261,-202},{8528045808294406977,-202},{9790700542148859489u,-202},{9560239111897580366u,-202},{10779609824541181,-202},
{18327885854570518,-202},{29107495679111699,-202},{36655771709141036,-202},{45062337880572851,-202},{73311543418282072,-202},{76972022283495155,-202},
{94012472925961956,-202},{1173282547089153509,-201},{1488350525759485923,-201},{2346565094178307018,-201},{3169507351725633083,-201},{4693130188356614036,-201},
{5516072445903940101,-201},{9386260376713228072u,-201},{7792092918339257059,-201},{14273528967174789,-201},{12031777988126305,-201},{15394404456699031,-201},
{24063555976252610,-201},{39457960432951641,-201},{48127111952505220,-201},{78915920865903282,-201},{61279765430155767,-201},{1344925460772917728,-200},
{1123901311869060467,-200},{2854439373055300669,-200},{1589448817700260082,-200},{5873467197620066551,-200},{3014309183891054951,-200},{9936461428636015759u,-200},
{6028618367782109902,-200},{11537964132395974,-200},{11240111735755617,-200},{22778075868151591,-200},{19250844781002088,-200},{42028920649153679,-200},
{38501689562004176,-200},{84057841298307358,-200},{80530610211157855,-200},{95235239353036581,-200},{97571060853624656,-200},{1108858058920227225,-199},
{1030791810702820544,-199},{2382304569349919663,-199},{1238641363858315023,-199},{4764609138699839326,-199},{2477282727716630046,-199},{9529218277399678652u,-199},
{4954565455433260092,-199},{9841483270269305376u,-199},{9710718639058447567u,-199},{12111726654964453,-199},{16106122042231571,-199},{24690617610046521,-199},
{32212244084463142,-199},{42793937345911651,-199},{64424488168926284,-199},{85587874691823302,-199},{79000576817641911,-199},{1774172894272363560,-198},
{1023830781388545061,-198},{3548345788544727120,-198},{2139649869623047769,-198},{4042111143073122759,-198},{4700464949110983611,-198},{8084222286146245518,-198},
{9400929898221967222u,-198},{14202357208621535,-198},{14389222928668581,-198},{21443685102967587,-198},{28778445857337162,-198},{42887370205935174,-198},
{35926340891659691,-198},{85774740411870348,-198},{78813711097594865,-198},{1419338315417890848,-197},{1203434512237341063,-197},{2622772827655231911,-197},
{2406869024474682126,-197},{5245545655310463822,-197},{3281126633693092763,-197},{8958479895364656155,-197},{6562253267386185526,-197},{11361885766897228,-197},
{10268665056117405,-197},{22723771533794456,-197},{15762742219518973,-197},{44354322356809089,-197},{31525484439037946,-197},{88708644713618178,-197},
{75879806795847035,-197},{98547631110636585,-197},{97968009887463119,-197},{1079519015902748925,-196},{1230346090803501790,-196},{1791695979072931231,-196},
{1618972936528491403,-196},{3583391958145862462,-196},{3237945873056982806,-196},{8699395331547996413,-196},{4943280330857694123,-196},{9910901327964131085u,-196},
{9886560661715388246u,-196},{10481714476372879,-196},{15175961359169407,-196},{38486513753313429,-196},{30351922718338814,-196},{68838436471652243,-196},
{60703845436677628,-196},{94496112307194529,-196},{78226930237245299,-196},{1126834500207090687,-195},{1908222915325301718,-195},{2253669000414181374,-195},
{3786280415670452863,-195},{4537503415808513321,-195},{7572560831340905726,-195},{9075006831617026642,-195},{9135337661577327788,-195},{10134524718346020,-195},
{14269248386577825,-195},{17896100276944153,-195},{28538496773155650,-195},{46434597050099803,-195},{39926924222120111,-195},{92869194100199606,-195},
{79853848444240222,-195},{1502446000276120916,-194},{1532611415256271489,-194},{3004892000552241832,-194},{1851199864299586016,-194},{6009784001104483664,-194},
{3702399728599172032,-194},{9591522069783053404u,-194},{6677126314171263291,-194},{10588453975615899,-194},{11415398709262260,-194},{21176907951231798,-194},
{22003852684878159,-194},{43180760636109957,-194},{44007705369756318,-194},{86361521272219914,-194},{57849995759362063,-194},{99161096845796906,-194},
{98765692276915329,-194},{1153692136252655816,-193},{1104686835583721495,-193},{1432695227471427896,-193},{1821034449319435443,-193},{4467752643003820301,-193},
{3642068898638870886,-193},{8109821541642691187,-193},{7284137797277741772,-193},{16610748467526894,-193},{11900777045330957,-193},{28511525512857851,-193},
{23801554090661914,-193},{57023051025715702,-193},{52313079603519765,-193},{83880687071280831,-193},{95206216362647656,-193},{1007287283677966800,-192},
{1005238156600659197,-192},{1039825793906873619,-192},{1932635685806944275,-192},{2079651587813747238,-192},{4030408120486878433,-192},{4128418721824747075,-192},
{8060816240973756866,-192},{8256837443649494150,-192},{9547046980830665813u,-192},{15172587342899890,-192},{10462615920703953,-192},{18660125983134541,-192},
{20925231841407906,-192},{39585357824542447,-192},{41850463682815812,-192},{81435821507358259,-192},{83700927365631624,-192},{1155957242110929181,-191},
{1546108548645555420,-191},{2702065790756484601,-191},{2041518795264525069,-191},{5404131581512969202,-191},{4083037590529050138,-191},{9097017865507393101,-191},
{8166075181058100276,-191},{12591091045974585,-191},{10059967536759065,-191},{25182182091949170,-191},{12871596327043362,-191},{50364364183898340,-191},
{25822206784316361,-191},{53535512385481051,-191},{55347597072099743,-191},{1032924069271676662,-190},{1236886838916444336,-190},{1321093990983919064,-190},
{2473773677832888672,-190},{3981056205706666301,-190},{3608679131926949171,-190},{9673357708931877905u,-190},{5506112966335353039,-190},{10072872836779668,-190},
{10048644566844481,-190},{20145745673559336,-190},{11431936351743687,-190},{29765597338684331,-190},{33389766711921715,-190},{49005300668934321,-190},
{77305427432277771,-190},{94733046075909069,-190},{91455490813949496,-190},{1005418099205236251,-189},{1003728857337082756,-189},{1934671541786375581,-189},
{1785720712274488729,-189},{3869343083572751162,-189},{3571441424548977458,-189},{5729539210603183317,-189},{7142882849097954916,-189},{9449931464664047627u,-189},
{9075865149016177002,-189},{12561749987865647,-189},{13355906684768686,-189},{31577682025303023,-189},{26711813369537372,-189},{58289495394840395,-189},
{53423626739074744,-189},{79341283411709077,-189},{69609546100177775,-189},{1265068505730146145,-188},{1190255242600572020,-188},{2530137011460292290,-188},
{2455323748330718165,-188},{6027440869626957021,-188},{3943480649955063889,-188},{9153381199134796719,-188},{6919794453203755337,-188},{11657899078968079,-188},
{11320050705337380,-188},{23315798157936158,-188},{13921909220035555,-188},{46631596315872316,-188},{27843818440071110,-188},{56025485253772919,-188},
{92925344258113933,-188},{1012054804584116916,-187},{1320864935750237057,-187},{2024109609168233832,-187},{1964258998664574532,-187},{4955535454539180805,-187},
{3928517997329149064,-187},{9911070909078361610u,-187},{8884053451868329869,-187},{10069585685162001,-187},{10178378825110693,-187},{18787777875801206,-187},
{11137527376028444,-187},{37237707377971713,-187},{22275054752056888,-187},{74475414755943426,-187},{59512762130028601,-187},{90451612502750348,-187},
{89100219008227552,-187},{1015047335109299881,-186},{1036574535857855382,-186},{1982214181815672322,-186},{1934333693412744882,-186},{3964428363631344644,-186},
{2937410906421312903,-186},{7928856727262689288,-186},{4943565332438448945,-186},{9147396138084430789,-186},{9887130664876897890u,-186},{12307970474362559,-186},
{14624804252284126,-186},{18630879898359188,-186},{32242139029751217,-186},{34269229271535411,-186},{64484278059502434,-186},{68538458543070822,-186},
{90065659291626323,-186},{1027017457210031741,-185},{1690143202557814938,-185},{3023595785546582295,-185},{1977426132975379578,-185},{5001021918521961873,-185},
{3954852265950759156,-185},{8955874184472721029,-185},{7909704531901518312,-185},{10328985070071691,-185},{10020222501172471,-185},{13475896879704266,-185},
{25426999947674279,-185},{26932774726646685,-185},{50853999895348558,-185},{53865549453293370,-185},{82574823462287987,-185},{1209438314218632918,-184},
{1296098194421379215,-184},{2418876628437265836,-184},{1372706975866063119,-184},{3791583604303328955,-184},{2745413951732126238,-184},{7583167208606657910,-184},
{6536997556035455193,-184},{10174603785622081,-184},{10402594807979610,-184},{10773109890658674,-184},{20824208648721067,-184},{21546219781317348,-184},
{41173416219965229,-184},{43092439562634696,-184},{81871831362453553,-184},{86184879125269392,-184},{96235977883331785,-184},{1055460749605302062,-183},
{1036878555537103372,-183},{1516633441721331582,-183},{1132829532773949014,-183},{3695632627066483313,-183},{2265659065547898028,-183},{7391265254132966626,-183},
{4636560205366741043,-183},{9483604559275372060u,-183},{9378362485004427073u,-183},{14364146520878232,-183},{14459146736373613,-183},{28728293041756464,-183},
{19247195576666357,-183},{67127683979593797,-183},{38494391153332714,-183},{86279879340764773,-183},{76988782306665428,-183},{1234355168231254263,-182},
{1701102518567743390,-182},{1896720911855074412,-182},{2935457686798997653,-182},{3793441823710148824,-182},{5870915373597995306,-182},{8053630997756786775,-182},
{8520378348093275902,-182},{11339316871909976,-182},{11719317733891500,-182},{15245756116540476,-182},{25296854874602869,-182},{28633292826261083,-182},
{52451929156025607,-182},{55408366245702297,-182},{99329200091591607,-182},{1216279904427977056,-181},{1038736774943923241,-181},{1610726199551357355,-181},
{1433183070067303540,-181},{3221452399102714710,-181},{3688199749439203837,-181},{6442904798205429420,-181},{9486814067824090315u,-181},{10558029022983876,-181},
{10051098758062393,-181},{11824961011868407,-181},{20609127781046269,-181},{38008747013374283,-181},{34292308199734545,-181},{76017494026748566,-181},
{50509352596191883,-181},{97809196643665511,-181},{89362458486543069,-181},{1070393990582272098,-180},{1111037830157032069,-180},{1288580959641085884,-180},
{1897362813564818063,-180},{2577161919282171768,-180},{3185943773205903947,-180},{5154323838564343536,-180},{5763105692488075715,-180},{9699865823204954893u,-180},
{9172371648430742656,-180},{13075021570150167,-180},{13716923279893818,-180},{26791944850043985,-180},{27433846559787636,-180},{53583889700087970,-180},
{54225791409831621,-180},{70375350083877875,-180},{71659153503365177,-180},{1631517853721648892,-179},{1152621138497615143,-179},{3263035707443297784,-179},
{2305242276995230286,-179},{6177059838362260249,-179},{4610484553990460572,-179},{9569980684505256463u,-179},{9220969107980921144,-179},{10716777940017594,-179},
{11358679649761245,-179},{21433555880035188,-179},{15358873436262877,-179},{42867111760070376,-179},{36792429316298065,-179},{85734223520140752,-179},
{79659541076368441,-179},{1061701541407826242,-178},{1165609652367584986,-178},{1566575284371799677,-178},{2331219304735169972,-178},{3897794589106969649,-178},
{4662438609470339944,-178},{7446577601689603979,-178},{9324877218940679888u,-178},{10865561468057320,-178},{10815401576358379,-178},{11260056013420460,-178},
{14716971726519226,-178},{35508625896810763,-178},{29433943453038452,-178},{84005765663591369,-178},{45879373036107061,-178},{90080448107363680,-178},
{91758746072214122,-178},{1058768179040862185,-177},{1015614210661874984,-177},{2074382389702737169,-177},{1419513205033053732,-177},{3188037986590442783,-177},
{3799753202881139019,-177},{6027064396656550247,-177},{7599506405762278038,-177},{9258256351625980231u,-177},{9960059334167088580u,-177},{14035620562239261,-177},
{16968982929203318,-177},{31004603491442579,-177},{20949451988436793,-177},{62009206982885158,-177},{38965541609909529,-177},{74997720852855001,-177},
{77931083219819058,-177},{1345017509941044177,-176},{1764587367668734102,-176},{3109604877609778279,-176},{2341023443357753035,-176},{6219209755219556558,-176},
{4682046886715506070,-176},{8175942481451296971,-176},{9364093773431012140u,-176},{10055151503005786,-176},{12988513869969843,-176},{23043665372975629,-176},
{25977027739939686,-176},{36283192123368195,-176},{51954055479879372,-176},{68628970358081441,-176},{84299833714592618,-176},{1453248896958512503,-175},
{1104237320434177184,-175},{2725314160483765657,-175},{1872818754686202428,-175},{5450628320967531314,-175},{4598132915169968085,-175},{5967467840582942603,-175},
{9196265830339936170,-175},{11194052313328588,-175},{10343535777110703,-175},{14513276849347278,-175},{19994139414220759,-175},{43925692717096467,-175},
{34507416263568037,-175},{63533969962262593,-175},{69014832527136074,-175},{91788799322847883,-175},{97962594027722011,-175},{1100810216467252966,-174},
{1053888937506854393,-174},{1570728457122265682,-174},{1839253166067987234,-174},{2691748571865550463,-174},{3678506332135974468,-174},{5383497143731100926,-174},
{7357012664271948936,-174},{9518213300654391238u,-174},{9867577602704240050u,-174},{13185587034939802,-174},{14899139018401911,-174},{20550104890518969,-174},
{29798278036803822,-174},{57883004090145535,-174},{42813761764500047,-174},{98983213871183473,-174},{85627523529000094,-174},{1831169206757574508,-173},
{1381460864378593607,-173},{3212630071136168115,-173},{1973515520540848010,-173},{6764958008109694533,-173},{3947031041081696020,-173},{8453780901083995539,-173},
{9133176632758712145,-173},{11576600818029107,-173},{13290152801491216,-173},{23153201636058214,-173},{27195181291264577,-173},{46306403272116428,-173},
{50348382927322791,-173},{96654786199439219,-173},{61859446204659735,-173},{1037229118335403225,-172},{1376926984172761528,-172},{2074458236670806450,-172},
{1826635326551742429,-172},{4148916473341612900,-172},{3653270653103484858,-172},{8297832946683225800,-172},{7306541306206969716,-172},{10174536650572019,-172},
{11511063277336944,-172},{16905769446764026,-172},{20947749101970389,-172},{33811538893528052,-172},{41895498203940778,-172},{63089197581224025,-172},
{83790996407881556,-172},{93842557920797146,-172},{98975113927455576,-172},{1152799986284189588,-171},{1002412423290583614,-171},{1659566589336645160,-171},
{1745881153647775677,-171},{3319133178673290320,-171},{4569368512082937955,-171},{5560660152559194039,-171},{9138737024165875910,-171},{9740287276140299806u,-171},
{9656624410032659012u,-171},{12617839516244805,-171},{18178230923408570,-171},{25235679032489610,-171},{30796070439653375,-171},{50471358064979220,-171},
{56031749472142985,-171},{95382324722794675,-171},{77246803899466359,-171},{1327653271469316128,-170},{1827747404833175182,-170},{2655306542938632256,-170},
{3655494809666350364,-170},{4233006881089877911,-170},{7310989619332700728,-170},{8466013762179755822,-170},{9233948214728468451u,-170},{10094271612995844,-170},
{11206349894428597,-170},{20188543225991688,-170},{21300621507424441,-170},{41489164733416129,-170},{42601243014848882,-170},{82978329466832258,-170},
{85202486029697764,-170},{1524132274314274940,-169},{1000188266727718108,-169},{2339766475308383125,-169},{2708874606775602971,-169},{3601926745829379649,-169},
{5417749213551205942,-169},{7203853491658759298,-169},{6126247286871372697,-169},{11770975119143192,-169},{10966820822121833,-169},{15261171955647148,-169},
{17485328518512654,-169},{30522343911294296,-169},{34970657037025308,-169},{49119750711239703,-169},{69941314074050616,-169},{98239501422479406,-169},
{98051195094280835,-169},{1219305819451419952,-168},{1163315106926539745,-168},{1871813180246706500,-168},{2382620926377959697,-168},{3743626360493413000,-168},
{4254434106624666197,-168},{7998060467118079197,-168},{8508868213249332394,-168},{9866427980661120030u,-168},{9929310026593331571u,-168},{16373250237079901,-168},
{15767588065102528,-168},{32746500474159802,-168},{20821563362810913,-168},{76206613715713747,-168},{41643126725621826,-168},{88131550827062636,-168},
{96422514906547287,-168},{1497450544197365200,-167},{1350496424951210395,-167},{2994901088394730400,-167},{3505708834525983597,-167},{5989802176789460800,-167},
{6500609922920713997,-167},{9936373369053908812u,-167},{8249932668953417175,-167},{11924937111348889,-167},{14756793005560851,-167},{15968117349515597,-167},
{29513586011121702,-167},{31936234699031194,-167},{59027172022243404,-167},{93590659012335325,-167},{88336154430213871,-167},{1197960435357892160,-166},
{1080397139960968316,-166},{2395920870715784320,-166},{2906728616847037517,-166},{4791841741431568640,-166},{4045907404506467755,-166},{9583683482863137280u,-166},
{8837749145938036395,-166},{10590850605503402,-166},{10754533488024390,-166},{18718131802467065,-166},{13463627220345611,-166},{37436263604934130,-166},
{40227198778515845,-166},{74872527209868260,-166},{77663462383449975,-166},{98026749181851839,-166},{99164203188773836,-166},{1107555215671333905,-165},
{1234049503623719237,-165},{1916736696572627456,-165},{1767549829187607279,-165},{3833473393145254912,-165},{3535099658375214558,-165},{7666946786290509824,-165},
{7070199316750429116,-165},{14974505441973652,-165},{15532692476689995,-165},{29949010883947304,-165},{31065384953379990,-165},{59898021767894608,-165},
{62130769906759980,-165},{88172471547692883,-165},{92637967825423627,-165},{1000091226570611149,-164},{1000540644364549518,-164},{1772088345074134248,-164},
{1175340875534053540,-164},{3982660260530275089,-164},{2350681751068107080,-164},{5456374870834368983,-164},{6333342011598382169,-164},{9158815460140711594,-164},
{9280771232206569957u,-164},{10193405842486624,-164},{12426153981351996,-164},{29390823849230961,-164},{24852307962703992,-164},{58781647698461922,-164},
{54243131811934953,-164},{63393183193785116,-164},{99409231850815968,-164},{1066883819753702124,-163},{1442061830472479071,-163},{2508945650226181195,-163},
{2884123660944958142,-163},{5393069311171139337,-163},{3385912790990194381,-163},{9660604590185947833u,-163},{6771825581980388762,-163},{10026286687404863,-163},
{12491045684119042,-163},{22604955902079375,-163},{18066440015552406,-163},{45209911804158750,-163},{40671395917631781,-163},{90419823608317500,-163},
{58767043776702677,-163},{1003578260090472478,-162},{1202431773204326602,-162},{2007156520180944956,-162},{2382334530899721903,-162},{3286486034433267319,-162},
{4764669061799443806,-162},{9506809108089956311u,-162},{8051155096232711125,-162},{10006990185681051,-162},{10005458200695543,-162},{18083964721663500,-162},
{13522082560321739,-162},{36167929443327000,-162},{22575748058560885,-162},{72335858886654000,-162},{40683079055039177,-162},{94958339494844469,-162},
{81366158110078354,-162},{1012888954611674336,-161},{1016015055784896404,-161},{1896856018516205002,-161},{1610231019246542225,-161},{3507087037762747227,-161},
{3220462038493084450,-161},{6727549076255831677,-161},{6440924076986168900,-161},{9065607101430996495,-161},{8492357102891670941,-161},{14467171777330800,-161},
{11748735500377577,-161},{28934343554661600,-161},{26215907277708377,-161},{57868687109323200,-161},{52431814555416754,-161},{71460868494089315,-161},
{93989884003020616,-161},{1574809814666896557,-160},{1288184815397233780,-160},{1813121420286199299,-160},{2576369630794467560,-160},{3626242840572398598,-160},
{4389491051080666859,-160},{7252485681144797196,-160},{8778982102161333718,-160},{11573737421864640,-160},{10955278087066661,-160},{23147474843729280,-160},
{21129030880827805,-160},{46294949687458560,-160},{33402760616744193,-160},{92589899374917120,-160},{61987108014379919,-160},{1107849282158363080,-159},
{1030547852317787024,-159},{1832446777746343313,-159},{2061095704635574048,-159},{3664893555492686626,-159},{4122191409271148096,-159},{6031939616858067465,-159},
{9542230312669601979u,-159},{10066367522652302,-159},{10040515230797229,-159},{18517979874983424,-159},{16903224704662244,-159},{37035959749966848,-159},
{27373281019894841,-159},{74071919499933696,-159},{64409240769861689,-159},{83760450521860776,-159},{99830445349507357,-159},{1012566003577610100,-158},
{1034371560142847710,-158},{1206387923371613493,-158},{1389307064882998081,-158},{2412775846743226986,-158},{4076461623893301949,-158},{6489237470636528935,-158},
{8152923247786603898,-158},{8719094175868371333,-158},{9250438096854911426u,-158},{10308580798200479,-158},{16095847119501654,-158},{27696232053959077,-158},
{18033553323887070,-158},{55392464107918154,-158},{36067106647774140,-158},{96626787300720070,-158},{72134213295548280,-158},{1297847494127305787,-157},
{1071379122894598813,-157},{2595694988254611574,-157},{3074767456893734237,-157},{5191389976509223148,-157},{4259380765404686537,-157},{8492625804635664359,-157},
{8518761530809373074,-157},{12111936130589186,-157},{11843234386595768,-157},{19325357460144014,-157},{14426842659109656,-157},{50628300178880505,-157},
{28853685318219312,-157},{79481985497099817,-157},{57707370636438624,-157},{1343128791692016615,-156},{1001786992113296963,-156},{2686257583384033230,-156},
{1344953684649134308,-156},{3775081151530822131,-156},{3785535442000305617,-156},{9440316451444426199u,-156},{5680916735617829297,-156},{10125660035776101,-156},
{10365374794631969,-156},{20251320071552202,-156},{11977585258592477,-156},{40502640143104404,-156},{23955170517184954,-156},{81005280286208808,-156},
{42683195799628165,-156},{99284817755516700,-156},{85366391599256330,-156},{1074503033353613292,-155},{1003828343479871393,-155},{1132001630935772465,-155},
{1900608438852265423,-155},{2264003261871544930,-155},{4175065991193293839,-155},{4528006523743089860,-155},{8350131982386587678,-155},{9056013047486179720,-155},
{9513496484730810601u,-155},{15155627010293413,-155},{13763784394667376,-155},{30311254020586826,-155},{17073278319851266,-155},{65849653275915395,-155},
{34146556639702532,-155},{95109289908638589,-155},{68293113279405064,-155},{1279450418237380965,-154},{1595256573779564937,-154},{3248556105505708895,-154},
{2500857878528182909,-154},{6497112211011417790,-154},{3564362261047892867,-154},{8682163933997416727,-154},{7128724522095785734,-154},{13169930655183079,-154},
{13101885609630598,-154},{26339861310366158,-154},{15749480749777710,-154},{52679722620732316,-154},{31498961499555420,-154},{94905154771981146,-154},
{57770777764369097,-154},{1299422442202283558,-153},{1241379484255704537,-153},{2598844884404567116,-153},{1713215603620851737,-153},{5197689768809134232,-153},
{3426431207241703474,-153},{8958026041609795513,-153},{6852862414483406948,-153},{10590380560588448,-153},{10318200378378524,-153},{16890172860499532,-153},
{12599584599822168,-153},{24262612225579957,-153},{34716902695063443,-153},{68497248416062507,-153},{49461781425224293,-153},{97050448902319828,-153},
{98923562850448586,-153},{1045279026610033374,-152},{1059884600516355191,-152},{1350225836142153045,-152},{1945513881300070570,-152},{2279418946859028377,-152},
{4312060488025418853,-152},{4558837893718056754,-152},{8624120976050837706,-152},{9117675787436113508,-152},{9669652894446676578u,-152},{13137515498773874,-152},
{14074072472838253,-152},{19035466990838214,-152},{31767926949031273,-152},{34451151978321661,-152},{67155635901417313,-152},{97987005876384207,-152},
{90747441869674673,-152},{1080180668913722436,-151},{1556411105040056456,-151},{2160361337827444872,-151},{3112822210080112912,-151},{5694216273332835497,-151},
{4852150822482280071,-151},{8330808047286614389,-151},{9704301644964560142u,-151},{11957925200361006,-151},{10535301577599649,-151},{22493226777960655,-151},
{15253662771251121,-151},{50803393939869487,-151},{30507325542502242,-151},{69676838714475375,-151},{81310719482371729,-151},{1032557625301089034,-150},
{1183001423227412145,-150},{1453590350726366747,-150},{2215559048528501179,-150},{3057624499379056605,-150},{4431118097057002358,-150},{8711792396187681605,-150},
{6265692796684436321,-150},{10084811252232248,-150},{10755017415658990,-150},{13935367742895075,-150},{21510034831317980,-150},{27870735485790150,-150},
{43563829933159953,-150},{79552992777897001,-150},{63316138060003205,-150},{96333607766314790,-150},{94158566684218818,-150},{1014378424288874062,-149},
{1096844936508252827,-149},{1742358479237536321,-149},{1373493597677945753,-149},{3484716958475072642,-149},{2596543397429568395,-149},{6969433916950145284,-149},
{5042642996932813679,-149},{9934842195939304247u,-149},{9090136314431103257,-149},{11148294194316060,-149},{12663227612000641,-149},{22296588388632120,-149},
{23811521806316701,-149},{44593176777264240,-149},{47623043612633402,-149},{89186353554528480,-149},{95246087225266804,-149},{1273531745048970568,-148},
{1423975542975293679,-148},{1926790920017331605,-148},{2847951085950587358,-148},{4774742005967918963,-148},{5695902171901174716,-148},{9549484011935837926u,-148},
{7387778705841363111,-148},{13292470457851953,-148},{11948502190822010,-148},{17837270710905696,-148},{23897004381644020,-148},{35674541421811392,-148},
{31300706319412287,-148},{71349082843622784,-148},{87842385287498537,-148},{1203057429225827605,-147},{1015125920364113037,-147},{1541432736013865284,-147},
{2462592901947121037,-147},{4868707760398776247,-147},{4004025637960986321,-147},{7086891109988716889,-147},{8008051275921972642,-147},{10560839718378275,-147},
{10433568773137429,-147},{11371971266237673,-147},{20867137546274858,-147},{25240972648673963,-147},{41734275092549716,-147},{50481945297347926,-147},
{66975247741223679,-147},{91468724314658667,-147},{96462784547055901,-147},{1101495541770940573,-146},{1018923986876127911,-146},{1394787004599557047,-146},
{1785842288371045679,-146},{2789574009199114094,-146},{4101789458903858479,-146},{5049043136236461067,-146},{8733683799969484079,-146},{9246624599344162572u,-146},
{9993712226875534794u,-146},{16194304013780163,-146},{11095201105949032,-146},{34287641283567763,-146},{18392335699883190,-146},{70474315823142963,-146},
{36784671399766380,-146},{95864787686864721,-146},{99662854198879595,-146},{1327871556544352486,-145},{1322652854264483119,-145},{2650524410808835605,-145},
{2645305708528966238,-145},{5295830119337801843,-145},{5290611417057932476,-145},{8476459412308404569,-145},{8466022007748665835,-145},{12575636559822643,-145},
{11155000791968150,-145},{16134504327761045,-145},{19932570839775919,-145},{45083843959421205,-145},{39865141679551838,-145},{84948985638973043,-145},
{79730283359103676,-145},{1060209764323534242,-144},{1054991062043664875,-144},{2120419528647068484,-144},{1693204401549733167,-144},{3813623930196801651,-144},
{3386408803099466334,-144},{7627247860393603302,-144},{7200032733296267985,-144},{10037218533291172,-144},{11486967694354343,-144},{18033537583768482,-144},
{12814835303899115,-144},{36067075167536964,-144},{30848372887667597,-144},{66915448055204561,-144},{61696745775335194,-144},{92823423137931954,-144},
{97299980151323553,-144},{1023228824121657014,-143},{1181589989488904660,-143},{1867221673756588914,-143},{1440006546659253597,-143},{3982422500123788031,-143},
{2880013093318507194,-143},{6862435593442295225,-143},{5760026186637014388,-143},{9921684661247527533u,-143},{9700699068521847483u,-143},{15470570522988659,-143},
{17483836908288629,-143},{30941141045977318,-143},{25722438766107951,-143},{56663579812085269,-143},{51444877532215902,-143},{76346219422293310,-143},
{97671052784562437,-143},{1372487118688459045,-142},{1350388559415891040,-142},{2744974237376918090,-142},{2182720254337993669,-142},{5489948474753836180,-142},
{4927694491714911759,-142},{8257021271403322275,-142},{9855388983429823518u,-142},{14463937330338674,-142},{10855848158709283,-142},{15269243884458662,-142},
{18490470100938614,-142},{30538487768917324,-142},{42199642481746595,-142},{72738130250663919,-142},{84399284963493190,-142},{1097989694950767236,-141},
{1080310847532712832,-141},{2195979389901534472,-141},{2740554525522404489,-141},{4391958779803068944,-141},{4936533915423938961,-141},{8783917559606137888,-141},
{9328492695227007905u,-141},{10037909347060851,-141},{11261659500151388,-141},{21299568847212239,-141},{16879856992698638,-141},{38179425839910877,-141},
{33759713985397276,-141},{71939139825308153,-141},{67519427970794552,-141},{94786160493118148,-141},{99681161105480296,-141},{1124507966077848842,-140},
{1205136837333135799,-140},{1321123403424531564,-140},{1865698539045401581,-140},{2642246806849063128,-140},{3731397078090803162,-140},{9560465827409799435u,-140},
{7462794156181606324,-140},{9923956257353956856u,-140},{9760056477661918484u,-140},{16155712706867071,-140},{11736000852353470,-140},{27891713559220541,-140},
{23472001704706940,-140},{55783427118441082,-140},{51363715263927481,-140},{83974525235758419,-140},{93888006818827760,-140},{1912093165481959887,-139},
{1089150271241740034,-139},{3824186330963919774,-139},{3001243436723699921,-139},{7648372661927839548,-139},{4275972213711673179,-139},{8471315556168059401,-139},
{8551944427423346358,-139},{13808512536396377,-139},{14907266482107525,-139},{27617025072792754,-139},{18777601363765552,-139},{32036736927306355,-139},
{37555202727531104,-139},{64073473854612710,-139},{98307718673341361,-139},{1184371600438422577,-138},{1545800306636625301,-138},{2368743200876845154,-138},
{1726514659735726663,-138},{6102572355291214247,-138},{3453029319471453326,-138},{9474972803507380616u,-138},{6906058638942906652,-138},{11271500032593133,-138},
{11925813185686020,-138},{12814694770922542,-138},{23851626371372040,-138},{25629389541845084,-138},{47703252742744080,-138},{48826702760124237,-138},
{95406505485488160,-138},{97653405520248474,-138},{98394110675470942,-138},{1204388696807185458,-137},{1044251925857082410,-137},{2168011751408980911,-137},
{1927246109203590906,-137},{4336023502817961822,-137},{2489406264869657873,-137},{8672047005635923644,-137},{6825429767687619695,-137},{9939689514511097636u,-137},
{9957625059478631492u,-137},{11224586346164406,-137},{19081301097097632,-137},{37602116413959831,-137},{32737963766827969,-137},{55187136459156781,-137},
{65475927533655938,-137},{89796690769315248,-137},{90357176549550681,-137},{1557698467301835943,-136},{1365085953537523939,-136},{3115396934603671886,-136},
{2730171907075047878,-136},{6921736024569775697,-136},{5460343814150095756,-136},{9538803317575327662u,-136},{7997903207460831630,-136},{12983088350684101,-136},
{15152943721631019,-136},{25966176701368202,-136},{22186951739709799,-136},{60051289106288643,-136},{36254967775867359,-136},{88187321178603763,-136},
{72509935551734718,-136},{1570240375803331179,-135},{1076167182891055933,-135},{3140480751606662358,-135},{1599580641492166326,-135},{5983757272751206149,-135},
{6260134134896178919,-135},{9182918555735538801,-135},{6398322565968665304,-135},{11898160665210642,-135},{10610664992641454,-135},{14389889954299857,-135},
{24356807110656717,-135},{25644302783225905,-135},{48713614221313434,-135},{51288605566451810,-135},{93170779756782193,-135},{99847960460438152,-135},
{99230512671214101,-135},{1264523247969523262,-134},{1022594389936399249,-134},{2508219127621900727,-134},{1271333565866874742,-134},{3005697479482851713,-134},
{3226798969198829929,-134},{6011394958965703426,-134},{9348744673022522463u,-134},{10257721113290362,-134},{17379965101206915,-134},{20515442226580724,-134},
{34759930202413830,-134},{68668570667658725,-134},{41882174190330383,-134},{82061768906322896,-134},{83764348380660766,-134},{1004887563403285401,-133},
{1005853212357664340,-133},{1515986551058939347,-133},{1958189530490895779,-133},{2452943755192906173,-133},{3916379060981791558,-133},{5211264122324752689,-133},
{7832758121963583116,-133},{8959092938860619993,-133},{9569846162738500679u,-133},{13733714133531745,-133},{13903972080965532,-133},{27467428267063490,-133},
{27807944161931064,-133},{54934856534126980,-133},{55615888323862128,-133},{82232026853756683,-133},{83594090433226979,-133},{1444400979617140486,-132},
{1164403469240526675,-132},{3181489020392058049,-132},{1743432816165499196,-132},{6362978040784116098,-132},{3486865632330998392,-132},{9557156611957337413u,-132},
{6973731264661996784,-132},{10986971306825396,-132},{11668003096560544,-132},{21973942613650792,-132},{16991230802539455,-132},{43947885227301584,-132},
{27637686214497277,-132},{87895770454603168,-132},{55275372428994554,-132},{1038445959230601558,-131},{1224209836550198417,-131},{1677281673465245821,-131},
{2262655795780799975,-131},{2954953101934534347,-131},{4525311591561599950,-131},{5909906203869068694,-131},{7480264693496134297,-131},{10147541814110712,-131},
{10004514651705804,-131},{16310199012804307,-131},{13592984642031564,-131},{20841193893481495,-131},{38965173416190247,-131},{71585571441798861,-131},
{48027163177544623,-131},{83364775573925980,-131},{89709550964507613,-131},{1013066857668275026,-130},{1036823925953939331,-130},{1969968734623022898,-130},
{1810124636624639980,-130},{3939937469246045796,-130},{3620249273249279960,-130},{7879874938492091592,-130},{5510295958873111399,-130},{9929765722114305949u,-130},
{8651012938127242605,-130},{11779204132127119,-130},{14681252947974231,-130},{16672955114785196,-130},{29903183654835871,-130},{33345910229570392,-130},
{46576138769621067,-130},{66691820459140784,-130},{93152277539242134,-130},{1485685026970741283,-129},{1448099709299711984,-129},{1767787905296477820,-129},
{2896199418599423968,-129},{3497990492921926341,-129},{5792398837198847936,-129},{6995980985843852682,-129},{6958395668172823383,-129},{12177544565489312,-129},
{11636866806601903,-129},{24355089130978624,-129},{13230228540050675,-129},{42877409087049569,-129},{26460457080101350,-129},{69337866167150919,-129},
{90506231831231999,-129},{1165996830973975447,-128},{1128411513302946148,-128},{2331993661947950894,-128},{1376645006566152957,-128},{4663987323895901788,-128},
{3708638668514103851,-128},{9327974647791803576u,-128},{8372625992410005639,-128},{10089379542294659,-128},{10043505073153131,-128},{18533788573356327,-128},
{10584182832040540,-128},{33351644538213083,-128},{21168365664081080,-128},{79922048999191459,-128},{42336731328162160,-128},{88389395264823891,-128},
{84673462656324320,-128},{1012342020934231723,-127},{1048696560513481347,-127},{1704593452618824567,-127},{1292385736329281953,-127},{3952327844329904457,-127},
{2584771472658563906,-127},{8447796627752064237,-127},{4626402006224872489,-127},{9834761047304809275u,-127},{8709663073357489655,-127},{12597471293585319,-127},
{13011663713038635,-127},{25194942587170638,-127},{16934692531264864,-127},{50389885174341276,-127},{33869385062529728,-127},{96235452901276349,-127},
{67738770125059456,-127},{1255046574276608589,-126},{1142536776881876627,-126},{3053234087645472501,-126},{1741932614671497931,-126},{5338307641409225755,-126},
{3483865229342995862,-126},{8504051526449430218,-126},{8822172870752221617,-126},{10655486588786843,-126},{12804567503311977,-126},{25855290624979889,-126},
{21064817559217751,-126},{32794844605267161,-126},{42129635118435502,-126},{65589689210534322,-126},{84259270236871004,-126},{1067661528281845151,-125},
{1348542172779305560,-125},{2135323056563690302,-125},{1891683111871560883,-125},{5076047346814430841,-125},{2977964990056071529,-125},{9346693459941811445u,-125},
{5955929980112143058,-125},{10008972174907960,-125},{10580622674605015,-125},{10664030852290390,-125},{21210476472881217,-125},{37486855423686925,-125},
{37388393176344551,-125},{74973710847373850,-125},{56156436450023607,-125},{93692522997381719,-125},{93298674008012223,-125},{1049041178379179656,-124},
{1078833738223444448,-124},{1869338691988362289,-124},{1352266242759838659,-124},{3738677383976724578,-124},{2704532485519677318,-124},{7477354767953449156,-124},
{5637808635809351659,-124},{8968986995950490462,-124},{9893558469014599867u,-124},{14994742169474770,-124},{11073747694256923,-124},{29989484338949540,-124},
{33713554319482639,-124},{63703038658432179,-124},{67427108638965278,-124},{97613517472599566,-124},{69969631651389889,-124},{1219059193069869141,-123},
{1403973487682691022,-123},{2438118386139738282,-123},{2623032680752560163,-123},{5061151066892298445,-123},{5246065361505120326,-123},{8282756001640499393,-123},
{8652584590866143155,-123},{11995793735579816,-123},{10348626147618778,-123},{23991587471159632,-123},{16973182314704457,-123},{47983174942319264,-123},
{33516629824797891,-123},{95966349884638528,-123},{59155384883918561,-123},{1012230213378459689,-122},{1197144507991281570,-122},{2024460426756919378,-122},
{1730516918173228631,-122},{4048920853513838756,-122},{3754977344930148009,-122},{8097841707027677512,-122},{7509954689860296018,-122},{10742475136988274,-122},
{10198263714919285,-122},{11659183054939303,-122},{20940738851907559,-122},{36810965000719967,-122},{34003602938137897,-122},{51707244922852363,-122},
{68007205876275794,-122},{92729253017445435,-122},{92185041595376446,-122},{1099888953692809973,-121},{1018423670906587668,-121},{2179020689112960053,-121},
{1266836131105106606,-121},{2797261738537122753,-121},{3445856820218066659,-121},{5594523477074245506,-121},{8452493280124930671,-121},{9121845580078534470,-121},
{9871099572513943307u,-121},{10667975837811866,-121},{16861433365939845,-121},{18545850603489087,-121},{33722866731879690,-121},{52268717335368777,-121},
{67445733463759380,-121},{89360418542346951,-121},{80376859942084327,-121},{1483778518617990480,-120},{1066186800149467193,-120},{3539150997846117993,-120},
{2132373600298934386,-120},{7078301995692235986,-120},{3693153239987731739,-120},{9628267314459693659u,-120},{7386306479975463478,-120},{10113407821474422,-120},
{13489146692751876,-120},{19668795428521915,-120},{26978293385503752,-120},{38779570642616901,-120},{53956586771007504,-120},{92736157413624405,-120},
{61266084727989341,-120},{1187022814894392384,-119},{1319107610198946971,-119},{2154291047135993545,-119},{1934536464483202322,-119},{2945639590398921801,-119},
{5232015432839469933,-119},{6814712519365326445,-119},{7738145857932809288,-119},{10099599029116482,-119},{10679713311316115,-119},{18547231482724881,-119},
{21359426622632230,-119},{37094462965449762,-119},{39906658105357111,-119},{74188925930899524,-119},{52271479093840365,-119},{93294177628051334,-119},
{93874291910250967,-119},{1019754081794103216,-118},{1064169089750421167,-118},{1362942503873065289,-118},{1925885508604818585,-118},{2725885007746130578,-118},
{4370299013985072515,-118},{5451770015492261156,-118},{7817164689402662187,-118},{9980106692417039469u,-118},{9866484037433651622u,-118},{11463151018291086,-118},
{10454295818768073,-118},{29559547515919883,-118},{20908591637536146,-118},{63734630112131451,-118},{41817183275072292,-118},{92285322428528321,-118},
{83634366550144584,-118},{1032097465736720301,-117},{1748119605594029006,-117},{2572805872620575169,-117},{2365394673910401031,-117},{6276456282518807319,-117},
{4730789347820802062,-117},{8745556555784295419,-117},{9461578695641604124u,-117},{13437987325604774,-117},{10325673543571059,-117},{21917446837059159,-117},
{23763660869175833,-117},{56178277616735403,-117},{35183937795734581,-117},{58024491648852077,-117},{70367875591469162,-117},{1338255735987831119,-116},
{1066637766538944584,-116},{2819715899947123979,-116},{1560457821192042204,-116},{3807356009253319219,-116},{4093764865196242701,-116},{6069045083808633181,-116},
{8187529730392485402,-116},{10497169910500411,-116},{10475995673396856,-116},{20994339821000822,-116},{13567135218327016,-116},{41988679642001644,-116},
{27155444673757587,-116},{88893538623946567,-116},{54310889347515174,-116},{93830892200993401,-116},{98704723066729570,-116},{1150610890975527161,-115},
{1002430995800232187,-115},{1832075790640928739,-115},{1328372559138896029,-115},{4202412052975797315,-115},{2656745118277792058,-115},{6859157171253589373,-115},
{7935678114641469047,-115},{9412230568955660050u,-115},{9688688490490917066u,-115},{14820530425981924,-115},{14812060731140502,-115},{19757884003028758,-115},
{34565709886748549,-115},{39515768006057516,-115},{69131419773497098,-115},{79031536012115032,-115},{93822422506151979,-115},{1680964821190318926,-114},
{1278002235988692758,-114},{3361929642380637852,-114},{2219225292884258763,-114},{5581154935264896615,-114},{4438450585768517526,-114},{9346047162847160635u,-114},
{8876901171537035052,-114},{10888433923511443,-114},{13819508198826282,-114},{14824765273402635,-114},{27639016397652564,-114},{52346958519990289,-114},
{48393687780416253,-114},{62230135368925379,-114},{96787375560832506,-114},{1116230987052979323,-113},{1479483528589505842,-113},{2595714515642485165,-113},
{2958967057179011684,-113},{5191429031284970330,-113},{5554681572821496849,-113},{9656352979496887622u,-113},{6326758848110279214,-113},{11260045851912865,-113},
{10060513118294379,-113},{22520091703825730,-113},{14613550224677658,-113},{31803502185951577,-113},{42463781671055199,-113},{50370323150203271,-113},
{84927563342110398,-113},{97809572025091703,-113},{96297187904651176,-113},{1038285806256994066,-112},{1141229442962165048,-112},{2076571612513988132,-112},
{1555953802851277058,-112},{4153143225027976264,-112},{2542767790755685633,-112},{8306286450055952528,-112},{5969405932710608859,-112},{9662252605633743786u,-112},
{9601931348075874049u,-112},{18016073363060584,-112},{14338176424082103,-112},{22795465504421285,-112},{28676352848164206,-112},{45590931008842570,-112},
{70589386918028295,-112},{91181862017685140,-112},{89706955483471099,-112},{1547429327021816809,-111},{1484483219771342987,-111},{2273934410094869847,-111},
{2968966439542685974,-111},{4547868820189739694,-111},{6758857123034135719,-111},{9095737640379479388,-111},{9664877455326347871u,-111},{12355485059794107,-111},
{14117877383605659,-111},{18236372403537028,-111},{23236063585374173,-111},{36472744807074056,-111},{46472127170748346,-111},{72945489614148112,-111},
{92944254341496692,-111},{1515956273396579898,-110},{1137229690016695332,-110},{3031912546793159796,-110},{1832261719464511459,-110},{6063825093586319592,-110},
{3222325778360143713,-110},{9916661884328243159u,-110},{6444651556720287426,-110},{10474350661520902,-110},{10999320600041719,-110},{21473671261562621,-110},
{13999135309144006,-110},{35472806570706627,-110},{43472312461646059,-110},{70945613141413254,-110},{86944624923292118,-110},{99918773887173257,-110},
{96269127003539647,-110},{1199650827328648337,-109},{1011337475515747688,-109},{2399301654657296674,-109},{1315158694121288648,-109},{4798603309314593348,-109},
{2564746431299499389,-109},{9485898511344712921u,-109},{5129492862598998778,-109},{9885393790141212153u,-109},{9925061403344576231u,-109},{10989320271906878,-109},
{17493918972362587,-109},{21978640543813756,-109},{28483239244269465,-109},{69450705950929531,-109},{56966478488538930,-109},{87914562175255024,-109},
{88964502052296658,-109},{1614173199504859893,-108},{1238153449592861774,-108},{3913601034463031759,-108},{2476306899185723548,-108},{5682391676738548579,-108},
{7097424190558962035,-108},{8534718325836270246,-108},{9219972961289582219,-108},{13575159227073416,-108},{11393295697707786,-108},{20079757927529125,-108},
{22786591395415572,-108},{42866349322944697,-108},{45573182790831144,-108},{85732698645889394,-108},{91146365581662288,-108},{1428389486694550309,-107},
{1419484838111792407,-107},{2135905743604757037,-107},{2838969676223584814,-107},{3550938257425170493,-107},{5677939352447169628,-107},{7101876514850340986,-107},
{6381003285065997405,-107},{11522884817996658,-107},{10738736638898097,-107},{16063806342023300,-107},{21477473277796194,-107},{27675288392667649,-107},
{47407270846971339,-107},{50898252493956347,-107},{94814541693942678,-107},{98558088124140101,-107},{99368690132699978,-107},{1164082745954259212,-106},
{1128464151623227604,-106},{1997073886797543062,-106},{1276200657013199481,-106},{4124074981819542197,-106},{2552401314026398962,-106},{6676476295845941159,-106},
{5104802628052797924,-106},{12851045073618640,-106},{16291513763961165,-106},{21249765855858329,-106},{37035351819301281,-106},{42499531711716658,-106},
{78523027929981513,-106},{80546739132054365,-106},{99165840072036663,-106},{1001530343721561380,-105},{1001694220238278798,-105},{1127411726010058515,-105},
{1701600876017599308,-105},{2200343134910400529,-105},{3403201752035198616,-105},{4974875419828341851,-105},{6806403504070397232,-105},{9949750839656683702u,-105},
{8583451271202736112,-105},{10280836058894912,-105},{13033211011168932,-105},{16109347826410873,-105},{30518746313716815,-105},{59985067014264541,-105},
{51080418431506639,-105},{64437391305643492,-105},{83299114084328385,-105},{1038559337653441571,-104},{1476118530815587605,-104},{2378047911623634417,-104},
{2104787997932844899,-104},{3362126932167359487,-104},{4209575995865689798,-104},{9813120882811288943u,-104},{8419151991731379596,-104},{10005598563667510,-104},
{12207498525486726,-104},{20011197127335020,-104},{16659822816865677,-104},{36671019944200697,-104},{33319645633731354,-104},{69990665577932051,-104},
{66639291267462708,-104},{1120708977389119829,-103},{1180894824652470084,-103},{2241417954778239658,-103},{2301603802041589913,-103},{4482835909556479316,-103},
{4543021756819829571,-103},{9025857666376308887,-103},{9086043513639659142,-103},{10027391818913477,-103},{10052378010532976,-103},{16008957701868016,-103},
{12657583391398673,-103},{22462401705980469,-103},{34870680480552909,-103},{47777568488777815,-103},{69741360961105818,-103},{95555136977555630,-103},
{85002404812495135,-103},{1020816638047137766,-102},{1001427830001430802,-102},{2053670445546945583,-102},{1039882103789257524,-102},{4107340891093891166,-102},
{2082430315311918823,-102},{6021250834068429275,-102},{6069399511879109479,-102},{9923959844466929574u,-102},{8308313030075738965,-102},{11666060130767662,-102},
{14518825207584539,-102},{31148196848181177,-102},{17000480962499027,-102},{62296393696362354,-102},{34000961924998054,-102},{88481279034714555,-102},
{68001923849996108,-102},{1204250166813685855,-101},{1252398844624366059,-101},{2408500333627371710,-101},{2504797689248732118,-101},{4817000667254743420,-101},
{3684973517157077871,-101},{9634001334509486840u,-101},{7369947034314155742,-101},{12709722397433488,-101},{10645619763782283,-101},{17696255806942911,-101},
{18415252551067242,-101},{47429681066555873,-101},{36830505102134484,-101},{94859362133111746,-101},{61623840751598917,-101},{1300654166744382414,-100},
{1228324505719025957,-100},{1926800266901897368,-100},{2191724639169974641,-100},{3853600533803794736,-100},{4383449278339949282,-100},{7707201067607589472,-100},
{8766898556679898564,-100},{10093467838969360,-100},{10251729615184210,-100},{16564438536088339,-100},{19547069821921814,-100},{33128877072176678,-100},
{27056970191173577,-100},{78294923597023407,-100},{42076770929677103,-100},{84366830478026508,-100},{84260186168690357,-100},{1002857545621650976,-99},
{1045060925972299959,-99},{1329500715707056076,-99},{1989372219193914403,-99},{2659001431414112152,-99},{4118524906071872009,-99},{6777526337485984161,-99},
{8237049812143744018,-99},{9176482250998688751,-99},{8896921315630602345,-99},{10844116938336661,-99},{13230221967003441,-99},{21688233876673322,-99},
{26460443934006882,-99},{43376467753346644,-99},{57799742234683475,-99},{86752935506693288,-99},{81874081140023577,-99},{1119512759639262142,-98},
{1619453868891940163,-98},{2419105840062841693,-98},{1779384263126120469,-98},{6297735154783443243,-98},{3558768526252240938,-98},{9676423360251366772u,-98},
{7117537052504481876,-98},{12621034767739558,-98},{11559948446936695,-98},{19302128848006542,-98},{23119896893873390,-98},{33725403329343373,-98},
{46239793787746780,-98},{67450806658686746,-98},{92479587575493560,-98},{1187514902642961685,-97},{1003658400182000159,-97},{1643379977118721383,-97},
{2007316800364000318,-97},{3286759954237442766,-97},{3650696777482721701,-97},{6937456731720164467,-97},{7301393554965443402,-97},{10267458709129488,-97},
{10350631447574950,-97},{11411717768377813,-97},{18495917515098712,-97},{22823435536755626,-97},{36991835030197424,-97},{53833743510257745,-97},
{73983670060394848,-97},{87517560470378387,-97},{96338941990583139,-97},{1022799286763425135,-96},{1015246923410136901,-96},{2118385938175906057,-96},
{1084258106382548571,-96},{4236771876351812114,-96},{2256408304120729397,-96},{4746283428895202623,-96},{5037432887491425771,-96},{9492566857790405246u,-96},
{8967950578540438269,-96},{10766748702051549,-96},{16561010316119920,-96},{21533497404103098,-96},{32112980663527713,-96},{43066994808206196,-96},
{58431699712987055,-96},{82357807939768275,-96},{97722512844549134,-96},{1636478858821480216,-95},{1182176252656019043,-95},{2818655111477499259,-95},
{2364352505312038086,-95},{6673911746312905987,-95},{3692103487266168703,-95},{9201417399194182098,-95},{7384206974532337406,-95},{10123871632298886,-95},
{11686339942597411,-95},{16471561587953655,-95},{23372679885194822,-95},{32943123175907310,-95},{39844241473148477,-95},{65886246351814620,-95},
{79688482946296954,-95},{1101862782385602679,-94},{1360381611467978222,-94},{2462244393853580901,-94},{1684161699578048975,-94},{4924488787707161802,-94},
{3109804570073722407,-94},{5961090311065069271,-94},{6219609140147444814,-94},{10364806311825579,-94},{10338548579897922,-94},{13177249270362924,-94},
{20703354891723501,-94},{26354498540725848,-94},{33880604162086425,-94},{52708997081451696,-94},{60235102702812273,-94},{90365782920182238,-94},
{87839575891776941,-94},{1091336737608468934,-93},{1036601523357907469,-93},{1814684217633439395,-93},{2073203046715814938,-93},{3887887264349254333,-93},
{2436139890242502817,-93},{7775774528698508666,-93},{4872279780485005634,-93},{9903712789664885069u,-93},{9744559560970011268u,-93},{12552261946243514,-93},
{13552241664834570,-93},{18578397989717507,-93},{33630609232438661,-93},{37156795979435014,-93},{67261218464877322,-93},{71787384930464731,-93},
{95365681513137518,-93},{1451747374106751516,-92},{1077863487729951344,-92},{3348955520484278661,-92},{2155726975459902688,-92},{6697911040968557322,-92},
{3865993178649029747,-92},{9672982675076035811u,-92},{7731986357298059494,-92},{13157501323783679,-92},{10841793331867656,-92},{19578377708308563,-92},
{21683586663735312,-92},{39156755416617126,-92},{54314216177582917,-92},{78313510833234252,-92},{67366467983121959,-92},{1072305744831246087,-91},
{1396843716908891830,-91},{1578227917198586659,-91},{2469149461740137917,-91},{4613760951402630091,-91},{3480993806474819061,-91},{6637449640871992379,-91},
{9552059874882905925u,-91},{10189158882537303,-91},{10357601829835524,-91},{17852110736669309,-91},{15157460760965791,-91},{35704221473338618,-91},
{24757178623226325,-91},{76966185845382493,-91},{49514357246452650,-91},{93470971594200043,-91},{99028714492905300,-91},{1019490430435029927,-90},
{1117474973527113464,-90},{1132767144927811030,-90},{1910411974976581185,-90},{2590072261933267803,-90},{3820823949953162370,-90},{6410896211886430173,-90},
{7641647899906324740,-90},{9129537359713176645,-90},{9196937560003865050,-90},{17548957149639313,-90},{16504785748817550,-90},{27451828598929843,-90},
{19805742898581060,-90},{47257571497510903,-90},{39611485797162120,-90},{86869057294673023,-90},{79222971594324240,-90},{1514849539923127267,-89},
{1528329579981264948,-89},{1825907471942635329,-89},{3056659159962529896,-89},{4882566631905165225,-89},{6113318319925059792,-89},{9765133263810330450u,-89},
{8561341655906711245,-89},{10286851420159591,-89},{13203828599054040,-89},{23490680019213631,-89},{15844594318864848,-89},{39335274338078479,-89},
{31689188637729696,-89},{92150588734294639,-89},{63378377275459392,-89},{1217271647961756886,-88},{1244231728078032248,-88},{1953026652762066090,-88},
{1712268331181342249,-88},{3906053305524132180,-88},{3424536662362684498,-88},{7812106611048264360,-88},{6849073324725368996,-88},{10925489147755209,-88},
{10563062879243232,-88},{21488552026998441,-88},{21126125758486464,-88},{28772211458835247,-88},{42252251516972928,-88},{71024462975808175,-88},
{84504503033945856,-88},{91028175867161442,-88},{98709395629107491,-88},{1144855911540964292,-87},{1016953446555446088,-87},{1562421322209652872,-87},
{2102873661733755467,-87},{3665294983943408339,-87},{4205747323467510934,-87},{7871042307410919273,-87},{8411494646935021868,-87},{9797108880056710001u,-87},
{9659175342810983419u,-87},{14204892595161635,-87},{16321018577170008,-87},{28409785190323270,-87},{30525911172331643,-87},{56819570380646540,-87},
{70299610438784221,-87},{86679060645017718,-87},{81663524514913529,-87},{1817976104740970209,-86},{1100466528689183804,-86},{3635952209481940418,-86},
{1876661653663906051,-86},{7271904418963880836,-86},{3783166376668718165,-86},{9325623309155470697u,-86},{7566332753337436330,-86},{11363914076129308,-86},
{13746608421321867,-86},{22727828152258616,-86},{19028712914610242,-86},{45455656304517232,-86},{38057425829220484,-86},{66333926837951661,-86},
{76114851658440968,-86},{1367908509468919752,-85},{1188995146953025709,-85},{2556903656421945461,-85},{1513266550667487266,-85},{5799617693566561031,-85},
{3026533101334974532,-85},{9869787900655993758u,-85},{7096703308424407259,-85},{10570777355962796,-85},{10044208998980470,-85},{21141554711925592,-85},
{17179155295786055,-85},{24577385771082803,-85},{38320710007711647,-85},{49154771542165606,-85},{76641420015423294,-85},{98309543084331212,-85},
{93596701349034462,-85},{1058544135071956993,-84},{1088358193706954589,-84},{1282178585540347430,-84},{2176716387413909178,-84},{4502532078708714803,-84},
{4085077236406931525,-84},{6649434407487626385,-84},{8170154472813863050,-84},{9631304442281921457u,-84},{9959230076560986546u,-84},{11415914074888936,-84},
{13743324236628844,-84},{30285342808527271,-84},{20033133814508289,-84},{68024200275803941,-84},{40066267629016578,-84},{98780827257860887,-84},
{80132535258033156,-84},{1329886881497525277,-83},{1634030894562772610,-83},{2963917776060297887,-83},{3268061789125545220,-83},{6231979565185843107,-83},
{6536123578251090440,-83},{9422518999719212884u,-83},{7603600326631183325,-83},{10252208994018982,-83},{12485362321052955,-83},{22737571315071937,-83},
{17517209983356511,-83},{52928657288893273,-83},{35034419966713022,-83},{73056047938107497,-83},{87963077255606295,-83},{1003080702584970755,-82},
{1307224715650218088,-82},{2006161405169941510,-82},{2614449431300436176,-82},{4012322810339883020,-82},{5228898862600872352,-82},{6322628228575071863,-82},
{8755780333097050527,-82},{10289911727901356,-82},{11769010377287849,-82},{15208651188557790,-82},{17592615451121259,-82},{32801266639679049,-82},
{35185230902242518,-82},{93032627651792225,-82},{70370461804485036,-82},{99007043661155131,-82},{95416591914355694,-82},{1093729365974199511,-81},
{1145246202610297215,-81},{1604929124135953208,-81},{1410752588198471270,-81},{4523522568501636717,-81},{2821505176396942540,-81},{9047045137003273434,-81},
{5643010352793885080,-81},{9857431901478935573u,-81},{9972356385358039859u,-81},{18606525530358445,-81},{10495244896460957,-81},{37213051060716890,-81},
{20990489792921914,-81},{74426102121433780,-81},{41980979585843828,-81},{97335367606769856,-81},{77522354592175443,-81},{1702017392104694177,-80},
{1128602070558777016,-80},{2830619462663471193,-80},{2257204141117554032,-80},{5661238925326942386,-80},{5087823603781025225,-80},{7788066534372715051,-80},
{9602231886016133289u,-80},{14885220424286756,-80},{13547879580778536,-80},{29770440848573512,-80},{20656154582044859,-80},{59540881697147024,-80},
{50426595430618371,-80},{75094772543187890,-80},{65980486276659237,-80},{1294880442828596950,-79},{1017564720756205045,-79},{2608544763058327251,-79},
{2035129441512410090,-79},{4643674204570737341,-79},{4070258883024820180,-79},{6382704046609622175,-79},{8140517766049640360,-79},{10719095278738517,-79},
{11274400146814562,-79},{15018954508637578,-79},{21993495425553079,-79},{30037909017275156,-79},{43986990851106158,-79},{97088267968740969,-79},
{50961531768021659,-79},{99701844063739138,-79},{97577112704887137,-79},{1035904354262877560,-78},{1165614520492967673,-78},{1276540809321924435,-78},
{1628103553209928072,-78},{2904644362531852507,-78},{3256207106419856144,-78},{5809288725063705014,-78},{6512414212839712288,-78},{9982603140650965147u,-78},
{9977020946249878637u,-78},{13838020860215793,-78},{13949081833831002,-78},{27676041720431586,-78},{27787102694046795,-78},{73913838894766105,-78},
{55574205388093590,-78},{92364533375053829,-78},{92808777269514665,-78},{1021232647457539548,-77},{1724358135233546822,-77},{3415260686260622281,-77},
{2075920879121550459,-77},{6830521372521244562,-77},{4118386174036629555,-77},{8203316763866787747,-77},{8236772348073259110,-77},{14782767778953221,-77},
{11114841077618718,-77},{25897608856571939,-77},{22229682155237436,-77},{51795217713143878,-77},{44459364310474872,-77},{70134851219816393,-77},
{88918728620949744,-77},{1339339807139071822,-76},{1372795391345543185,-76},{2712135198484615007,-76},{1647354469614651822,-76},{5457725981175701377,-76},
{3294708939229303644,-76},{6555962294252135925,-76},{6589417878458607288,-76},{11003780104003509,-76},{10536741100413110,-76},{16961311605030881,-76},
{21540521204416619,-76},{33922623210061762,-76},{28876374607085625,-76},{62798997817147387,-76},{57752749214171250,-76},{99615035485269795,-76},
{99830806821303716,-76},{1064780728869963185,-75},{1098236313076434548,-75},{1311192458850427185,-75},{2196472626152869096,-75},{2622384917700854370,-75},
{4392945252305738192,-75},{5244769835401708740,-75},{5278225419608180103,-75},{16596798445810387,-75},{11550549842834250,-75},{35847714850534137,-75},
{23101099685668500,-75},{74349547659981637,-75},{46202199371337000,-75},{87096162824847274,-75},{92404398742674000,-75},{1011894261619413407,-74},
{1019102504128327363,-74},{1048953967080341748,-74},{1770560334604883822,-74},{2097907934160683496,-74},{3541120669209767644,-74},{4195815868321366992,-74},
{6327179386688521851,-74},{8391631736642733984,-74},{9146693688373747421,-74},{12746615164865637,-74},{15400733123779000,-74},{21987055039133037,-74},
{18480879748534800,-74},{52788521286691037,-74},{36961759497069600,-74},{89750280783760637,-74},{73923518994139200,-74},{1060894552261147502,-73},
{1567460658030109745,-73},{2379859364329206053,-73},{2131363518367154859,-73},{3507665085003296281,-73},{5514780680389425543,-73},{7015330170006592562,-73},
{9777507717123735261u,-73},{10518525871794711,-73},{12320586499023200,-73},{20754996389230717,-73},{14784703798827840,-73},{35539700188058557,-73},
{29569407597655680,-73},{65109107785714237,-73},{59138815195311360,-73},{1250138760886143854,-72},{1253968526424087796,-72},{1498634606848195048,-72},
{2507937052848175592,-72},{2754518016041254815,-72},{5015874105696351184,-72},{5509036032082509630,-72},{9773677951585791319u,-72},{10082113482705524,-72},
{10191841983781783,-72},{17798055629465149,-72},{11827763039062272,-72},{37510994027902269,-72},{23655526078124544,-72},{76936870824776509,-72},
{47311052156249088,-72},{92707221543526205,-72},{94622104312498176,-72},{1036405998518521525,-71},{1009302445999980544,-71},{1101807206416501926,-71},
{1960863215177868571,-71},{2203614412833003852,-71},{3863984753533644625,-71},{4407228825666007704,-71},{8070884996214833797,-71},{8814457651332015408,-71},
{9272856494123744989u,-71},{13855467949777725,-71},{15770350718749696,-71},{18541444308705241,-71},{31540701437499392,-71},{37082888617410482,-71},
{63081402874998784,-71},{74165777234820964,-71},{76080660003792935,-71},{1201971497908911192,-70},{1545593901413457850,-70},{2403942995817822384,-70},
{2175097031600458649,-70},{6181668691296829289,-70},{4350194063200917298,-70},{9615771983271289536u,-70},{7326605426740650075,-70},{11084374359822180,-70},
{12999257128794151,-70},{24083631488616331,-70},{15216132000758587,-70},{48167262977232662,-70},{30432264001517174,-70},{89381909235579551,-70},
{60864528003034348,-70},{1052691435399873181,-69},{1328013506817711774,-69},{1648397856722021003,-69},{1465321085348130015,-69},{4670578413105226527,-69},
{2930642170696260030,-69},{7601220583801486557,-69},{5861284341392520060,-69},{10317061582221576,-69},{10057601209647799,-69},{17734998975715488,-69},
{10782382256829715,-69},{41456239940740861,-69},{21564764513659430,-69},{82912479881481722,-69},{54395098648936519,-69},{85552143697635609,-69},
{97524627676255379,-69},{1043113448216977365,-68},{1026078216922192066,-68},{2106089785156748473,-68},{1172256868278504012,-68},{4084449978965974521,-68},
{2344513736557008024,-68},{6428963715522982545,-68},{4689027473114016048,-68},{8699681212044832485,-68},{9378054946228032096u,-68},{16299730233495500,-68},
{11020402601187726,-68},{28517381232545203,-68},{30911878028269157,-68},{43374696047748793,-68},{61823756056538314,-68},{86749392095497586,-68},
{77878319269603881,-68},{1285792743104596509,-67},{1260246824835092024,-67},{2571585486209193018,-67},{3403234730009419539,-67},{5143170972418386036,-67},
{5974820216218612557,-67},{9454692701036545551u,-67},{7587026867280056629,-67},{11265569621617659,-67},{12506134082708085,-67},{13660066417341613,-67},
{25012268165416170,-67},{45769192843472747,-67},{42220763713115265,-67},{91538385686945494,-67},{65992467417441009,-67},{1005361488032857019,-66},
{1366965835674201016,-66},{1724608691447263806,-66},{2556257935247490327,-66},{3449217382894527612,-66},{5112515870494980654,-66},{7689210540358074569,-66},
{5944165114295207175,-66},{10431827349437120,-66},{10004907266166468,-66},{13766796438159276,-66},{16888305485246106,-66},{22424409222417655,-66},
{38885794624393109,-66},{44848818444835310,-66},{82880772902687115,-66},{89697636889670620,-66},{99342158304662569,-66},{1071551337176444742,-65},
{1066212615165419907,-65},{2143102674352889484,-65},{1188833022859041435,-65},{4286205348705778968,-65},{2219510890804279001,-65},{8730565852325361805,-65},
{4439021781608558002,-65},{9711529113874334029u,-65},{8878043563217116004,-65},{14078947342867959,-65},{16576154580537423,-65},{17939527377934124,-65},
{33152309161074846,-65},{35879054755868248,-65},{66304618322149692,-65},{76637754808513455,-65},{91735767413092208,-65},{1746113170465072361,-64},
{1109221573201037017,-64},{3492226340930144722,-64},{1902132836574466296,-64},{6817755571728845839,-64},{3804265673148932592,-64},{9673090315394955217u,-64},
{7608531346297865184,-64},{13306831335854726,-64},{12239086933649759,-64},{15327550961702691,-64},{24478173867299518,-64},{50024092136804003,-64},
{29587357521200415,-64},{60242459444605797,-64},{98980439871403039,-64},{1173764928449204525,-63},{1140425506422915804,-63},{1681569815216904853,-63},
{2314190434872120329,-63},{3363139630433809706,-63},{5294340911425744855,-63},{6060319219186115215,-63},{9922721781169985513u,-63},{10218367307801794,-63},
{10248285502543637,-63},{20436734615603588,-63},{11834943008480166,-63},{39805724829002209,-63},{23669886016960332,-63},{79611449658004418,-63},
{47339772033920664,-63},{96815032872251262,-63},{94679544067841328,-63},{1005690786811941062,-62},{1058868182285148971,-62},{1212063843837223043,-62},
{2117736364570297942,-62},{2424127687674446086,-62},{4235472729140595884,-62},{4848255375348892172,-62},{8470945458281191768,-62},{9989400625222562955u,-62},
{9243260290909111783u,-62},{16135838812041877,-62},{15068094409836910,-62},{32271677624083754,-62},{25176695457944023,-62},{45393897554158249,-62},
{69502848609897305,-62},{95747288470046295,-62},{72326853167217168,-62},{1502419108414981792,-61},{1161421058311034996,-61},{1997880125044512591,-61},
{2322842116622069992,-61},{3995760250089025182,-61},{5652642325029590977,-61},{9648402575118616159u,-61},{7634486391547714173,-61},{10787170554359597,-61},
{13900569721979461,-61},{19149457694009259,-61},{27801139443958922,-61},{46950597137968181,-61},{55602278887917844,-61},{93901194275936362,-61},
{60561772249647641,-61},{1331920083363008394,-60},{1319091236541896878,-60},{2663840166726016788,-60},{1644053228119454279,-60},{5327680333452033576,-60},
{2982387734893018431,-60},{6321809578416373053,-60},{7647315238368825689,-60},{10106611798775624,-60},{10403963406401581,-60},{11858893455227542,-60},
{19540621839293231,-60},{23717786910455084,-60},{42288455383864341,-60},{47435573820910168,-60},{87784122473006561,-60},{91663935936542457,-60},
{98595164019344026,-60},{1075799144147295928,-59},{1106153656045806315,-59},{1600869869399832376,-59},{1794564179664255665,-59},{3395434049064088041,-59},
{3589128359328511330,-59},{6790868098128176082,-59},{4720939709016540677,-59},{9962253325029330447u,-59},{9441879418033081354u,-59},{11411441787348761,-59},
{14991055130379009,-59},{19615671869419643,-59},{33189321966035897,-59},{36024132033561407,-59},{69585855637349673,-59},{72048264067122814,-59},
{95988352555077443,-59},{1048262723202557954,-58},{1435651343731404532,-58},{2096525446405115908,-58},{3285288365285136145,-58},{6984562408392599371,-58},
{6570576730570272290,-58},{7865727878624214539,-58},{9829268038561927932u,-58},{11694922794101312,-58},{12634286445358783,-58},{16975422177646866,-58},
{24329209239460095,-58},{33950844355293732,-58},{48658418478920190,-58},{68841052361844935,-58},{97316836957840380,-58},{1169798720819908028,-57},
{1314115346114054458,-57},{2069928389111635405,-57},{2628230692228108916,-57},{3870187725695090159,-57},{5256461384456217832,-57},{7740375451390180318,-57},
{7470706398861999667,-57},{11170216678497376,-57},{10671047347041509,-57},{13768210472368987,-57},{19463367391568076,-57},{27536420944737974,-57},
{33231577863937063,-57},{55072841889475948,-57},{66463155727874126,-57},{94997915335523834,-57},{98696394928899455,-57},{1097640408172834813,-56},
{1058877956115288450,-56},{2156518364288123263,-56},{1386273658761127673,-56},{4313036728576246526,-56},{2772547317522255346,-56},{5583857087102057055,-56},
{6585008393099686933,-56},{9475511178669225258u,-56},{9972750607918752417u,-56},{11777854301232019,-56},{17085470757597267,-56},{31904673749845751,-56},
{25821976367812821,-56},{63809347499691502,-56},{37212290206210999,-56},{98755369940553718,-56},{74424580412421998,-56},{1116771417420411411,-55},
{1309249188208428114,-55},{2233542834840822822,-55},{2426020605628839525,-55},{4467085669681645644,-55},{6276910510888888697,-55},{8934171339363291288,-55},
{9704082422515358100u,-55},{10948855287659274,-55},{13215123053008057,-55},{16864741482227815,-55},{26430246106016114,-55},{33729482964455630,-55},
{43294987588243929,-55},{67458965928911260,-55},{86589975176487858,-55},{1101399885547364377,-54},{1486355427123397783,-54},{2071808127798900187,-54},
{1940816484503071620,-54},{4143616255597800374,-54},{5306502268637352887,-54},{9450118524235153261u,-54},{6600379924972733967,-54},{10672185154885079,-54},
{10505373967420690,-54},{13491793185782252,-54},{21177559122305769,-54},{34669352308088021,-54},{42355118244611538,-54},{77024470552699559,-54},
{84710236489223076,-54},{94564547862783650,-54},{99914957174805721,-54},{1166093768364133431,-53},{1031894369743723946,-53},{1424869299631209647,-53},
{1552653187602457296,-53},{2849738599262419294,-53},{4012624612301971807,-53},{8932567461701000829,-53},{8025249224603943614,-53},{9916871826588000076u,-53},
{9699270789528486723u,-53},{12330587735930505,-53},{10726710073640046,-53},{24661175471861010,-53},{23057297809570551,-53},{49322350943722020,-53},
{47718473281431561,-53},{98644701887444040,-53},{97040824225153581,-53},{1014677755993384803,-52},{1888740602717198285,-52},{2029355511986769606,-52},
{3777481205434396570,-52},{3877247376554127769,-52},{7554962410868793140,-52},{7754494753108255538,-52},{9666015399155242990u,-52},{11468347851034863,-52},
{13767654210756575,-52},{19728940377488808,-52},{18125062715198349,-52},{39457880754977616,-52},{37854003092687157,-52},{78915761509955232,-52},
{75708006185374314,-52},{1029498581698001574,-51},{1510992482173758628,-51},{1696069868557180262,-51},{3021984964347517256,-51},{3084882006129994531,-51},
{6043969928695034512,-51},{9128851934825029043,-51},{8402997345147383271,-51},{11420107008034533,-51},{11014123368605260,-51},{16424703366907230,-51},
{19226475052058875,-51},{47670232438431231,-51},{35651178418966105,-51},{95340464876862462,-51},{56481531133315439,-51},{97776366713438100,-51},
{98142236562014107,-51},{1113940701229459568,-50},{1063623067803477748,-50},{1970941304900534963,-50},{1245086715222889191,-50},{3941882609801069926,-50},
{2490173430445778382,-50},{7883765219602139852,-50},{8040070050308560385,-50},{9984251703066719983u,-50},{9960693721783113528u,-50},{13139762693525784,-50},
{14260471367586442,-50},{26279525387051568,-50},{28520942735172884,-50},{69621293826841223,-50},{57041885470345768,-50},{79959284835215362,-50},
{88924954227700626,-50},{1451709179355291544,-49},{1608014010061712077,-49},{3059723189417003621,-49},{3216028020123424154,-49},{4864296136925921687,-49},
{7687206282154933863,-49},{8473442031943757819,-49},{9098661354769439951,-49},{10337991008374139,-49},{14820825704616771,-49},{15644218674150096,-49},
{29641651409233542,-49},{31288437348300192,-49},{59283302818467084,-49},{62897041782477275,-49},{98439552266541440,-49},{1098845411201665022,-48},
{1411455072614506088,-48},{1695630725640095822,-48},{3073940193610629287,-48},{3263390628961022443,-48},{6147880387221258574,-48},{6526781257922044886,-48},
{9411271016182281017u,-48},{10283098143738584,-48},{11920693980868795,-48},{12579408356495455,-48},{19687910453308288,-48},{42330845495000107,-48},
{32267318809803743,-48},{84661690990000214,-48},{64534637619607486,-48},{99977543464269296,-48},{98649438129181063,-48},{1255150241908085555,-47},
{1028752038738958026,-47},{1506180290289702666,-47},{2283902280647043581,-47},{3012360580579405332,-47},{3790082570936746247,-47},{6024721161158810664,-47},
{6802443151516151579,-47},{10063526685196364,-47},{17172028782009197,-47},{32442975976637519,-47},{27235555467205561,-47},{77201874559519829,-47},
{42155188328166331,-47},{92824136087815703,-47},{84310376656332662,-47},{1004120193526468444,-46},{1000780462092644662,-46},{2008240387052936888,-46},
{1102647574376426772,-46},{4016480774105873776,-46},{2049750750681385361,-46},{8032961548211747552,-46},{4199698747929640941,-46},{8499594742426152101,-46},
{9121772334712024833,-46},{15622261528295874,-46},{10150232636622233,-46},{23491196260061057,-46},{24251628895013407,-46},{59298315126366905,-46},
{36187335183782023,-46},{83169727703904137,-46},{72374670367564046,-46},{1482156791185174964,-45},{1088810786500277281,-45},{2964313582370349928,-45},
{1948789985399579513,-45},{4290925975484056709,-45},{5535281160055802173,-45},{6944150761711470271,-45},{9432861130854961199u,-45},{11859663025273381,-45},
{12163836079254321,-45},{23719326050546762,-45},{24327672158508642,-45},{47438652101093524,-45},{36035248656791553,-45},{83473900757885077,-45},
{72070497313583106,-45},{1015523596970770415,-44},{1028387031074180898,-44},{2043910628044951313,-44},{2056774062148361796,-44},{4087821256089902626,-44},
{4100684690193313109,-44},{6537941322923162105,-44},{9839070569643269365u,-44},{10065042006785835,-44},{10022723875889321,-44},{11646741887486723,-44},
{12133418773856227,-44},{23293483774973446,-44},{36156917878383929,-44},{59450401653357375,-44},{72313835756767858,-44},{93173935099893784,-44},
{84203916087439333,-44},{1026760895317932711,-43},{1005370389127773577,-43},{1307588264584632421,-43},{1967814113928653873,-43},{2615176529169264842,-43},
{3935628227857307746,-43},{5573329417113950893,-43},{7871256455714615492,-43},{8848731795627237187,-43},{9534684513178079605u,-43},{11890080330671475,-43},
{15241450169544778,-43},{23780160661342950,-43},{27131530500216253,-43},{47560321322685900,-43},{60423755426096383,-43},{95120642645371800,-43},
{69935819690633563,-43},{1368465475877670373,-42},{1320451698688042904,-42},{1954950679825243390,-42},{2688917174565713277,-42},{3861887582460859311,-42},
{5377834349131426554,-42},{7723775164921718622,-42},{7675761387732091153,-42},{11867932984386185,-42},{10961021250503047,-42},{19024128529074360,-42},
{24277911220855099,-42},{38048257058148720,-42},{50911691161559203,-42},{76096514116297440,-42},{88959948219707923,-42},{1113977891577987286,-41},
{1065964114388359817,-41},{1563960543860194712,-41},{2131928228776719634,-41},{3079907310530761955,-41},{4263856457553439268,-41},{6159814621061523910,-41},
{9807689616508810787u,-41},{10294950859222694,-41},{10107263147704605,-41},{15219302823259488,-41},{14276955335319886,-41},{30438605646518976,-41},
{28553910670639772,-41},{75625340372327639,-41},{42359692261989857,-41},{92258164427496530,-41},{84719384523979714,-41},{1025620889393346742,-40},
{1051150099163521341,-40},{1231962924212304782,-40},{1449547242740989257,-40},{2463925848424609564,-40},{4179071186883910765,-40},{4927851696849219128,-40},
{8358142373767821530,-40},{9855703393698438256u,-40},{8652314321607029802,-40},{12929320248959272,-40},{12863434103410483,-40},{18451632885499306,-40},
{29430372013030585,-40},{36903265770998612,-40},{62696020123368367,-40},{73806531541997224,-40},{92192278281947741,-40},{1628111611047827411,-39},
{1671628474753564306,-39},{3299740085801391717,-39},{3343256949507128612,-39},{6642997035308520329,-39},{6686513899014257224,-39},{9935195565275299743u,-39},
{6818796961433404832,-39},{11110511418628857,-39},{11772148805212234,-39},{17724109353367140,-39},{15475652611421853,-39},{33199761964788993,-39},
{30951305222843706,-39},{66399523929577986,-39},{64151067187632699,-39},{1281719426761734865,-38},{1007267604160025812,-38},{2546032108041174972,-38},
{1361782252733998199,-38},{5092064216082349944,-38},{2724155667979129627,-38},{9643928159702429161u,-38},{5448311335958259254,-38},{10209463163193450,-38},
{10317101740947902,-38},{14179287482693712,-38},{11930830740748425,-38},{37061947706534803,-38},{23861661481496850,-38},{82827268154216985,-38},
{47723322962993700,-38},{96027554379254938,-38},{86743273184840021,-38},{1060189032373977408,-37},{1000887865231948585,-37},{2165517370499694541,-37},
{1096624965384569754,-37},{4271733573857360259,-37},{2193249930769139508,-37},{5281324811830456223,-37},{5420578775688814287,-37},{9727125840510764062u,-37},
{8693046926360228791,-37},{16565453630843397,-37},{11227248295501462,-37},{33130907261686794,-37},{19089329185197480,-37},{66261814523373588,-37},
{38178658370394960,-37},{97710138082157660,-37},{76357316740789920,-37},{1000563376822748019,-36},{1139817340681106083,-36},{2001126753645496038,-36},
{3210571076255781153,-36},{4002253507290992076,-36},{6421142152511562306,-36},{7073570619688415165,-36},{9118538725448848664,-36},{11906295942352540,-36},
{12068540146952823,-36},{19542027616431532,-36},{15271463348157984,-36},{47787427974010443,-36},{30542926696315968,-36},{95574855948020886,-36},
{61085853392631936,-36},{1172825259415626010,-35},{1209444322610285115,-35},{1414714123937683033,-35},{2382269582025911125,-35},{2829428247875366066,-35},
{4764539164051822250,-35},{8524903806820757303,-35},{6663031017033619329,-35},{10681632165550489,-35},{10011769367682881,-35},{20855645737833653,-35},
{13957845226755863,-35},{41711291475667306,-35},{26110118223442137,-35},{85228155181404201,-35},{52220236446884274,-35},{97218183973490192,-35},
{89488276459944511,-35},{1107520087977160411,-34},{1011498333921819018,-34},{1876520415065001616,-34},{1905815665620728900,-34},{2807456809958570603,-34},
{3811631331241457800,-34},{4669329599745708577,-34},{8568846682654348229,-34},{9338659199491417154u,-34},{9573021203937235426u,-34},{10082932843362937,-34},
{11888505073432526,-34},{27489678325657695,-34},{23777010146865052,-34},{54979356651315390,-34},{62303169290247211,-34},{95311088024767138,-34},
{73136602670664745,-34},{1312099528017714767,-33},{1524652532496583120,-33},{2836752060514297887,-33},{3049305064993166240,-33},{5886057125507464127,-33},
{6098610129986332480,-33},{7777225165850329385,-33},{8202331174808066091,-33},{10995871330263078,-33},{10975566586532385,-33},{21991742660526156,-33},
{14627320534132949,-33},{43983485321052312,-33},{51307297959984133,-33},{87966970642104624,-33},{95290783281036445,-33},{1007169021518398143,-32},
{1219722025997266496,-32},{1555445033170065877,-32},{2439444051994532992,-32},{3110890066340131754,-32},{3994889085164598869,-32},{7105779151504730623,-32},
{7989778170329197738,-32},{10277703386981381,-32},{10196484412058609,-32},{11734344017275468,-32},{19058156656207289,-32},{23468688034550936,-32},
{38116313312414578,-32},{46937376069101872,-32},{76232626624829156,-32},{93874752138203744,-32},{90880251902692798,-32},{1023079422070404381,-31},
{1132305224017310398,-31},{2155384646087714779,-31},{1203811625445260258,-31},{4310769292175429558,-31},{2298397448943614499,-31},{8730764386297765133,-31},
{4596794897887228998,-31},{9952633414212169278u,-31},{9193589795774457996,-31},{16144875395619115,-31},{14647625277863642,-31},{19373850474742938,-31},
{24334550515235111,-31},{56624301306473341,-31},{48669101030470222,-31},{79461601703952979,-31},{97338202060940444,-31},{1180393505211894073,-30},
{1060798822589360538,-30},{2948391542860828303,-30},{2121597645178721076,-30},{5896783085721656606,-30},{3655590757920401995,-30},{8377164778767978287,-30},
{9552373843642058601u,-30},{12915900316495292,-30},{12111340183287159,-30},{25831800632990584,-30},{17072040223779332,-30},{51663601265981168,-30},
{32177880642577437,-30},{98142762194148577,-30},{64355761285154874,-30},{1018145389878160883,-29},{1414398430119147384,-29},{2336868073899281439,-29},
{1462236303168160798,-29},{5357016426333629863,-29},{2924472606336321596,-29},{9648049589740085429u,-29},{5848945212672643192,-29},{10976368359762740,-29},
{10725960214192479,-29},{16768296381711721,-29},{21451920428384958,-29},{33536592763423442,-29},{38220216810096679,-29},{67073185526846884,-29},
{76440433620193358,-29},{91492938342494113,-29},{99858553853559543,-29},{1147943882145147435,-28},{1038553009167066917,-28},{2295887764290294870,-28},
{1229904501363120573,-28},{4345728599895495825,-28},{2459809002726241146,-28},{8691457199790991650,-28},{5712289156965629795,-28},{9921691843216461225u,-28},
{9538658716762004911u,-28},{11541187486700082,-28},{12377749037806625,-28},{31613061515640095,-28},{24755498075613250,-28},{39307186506773483,-28},
{56368559591253345,-28},{78614373013546966,-28},{99021992302453000,-28},{1738291439958198330,-27},{1142457831393125959,-27},{3476582879916396660,-27},
{2284915662786251918,-27},{6953165759832793320,-27},{4569831325572503836,-27},{9833915031184117609u,-27},{9139662651145007672,-27},{12645224606256038,-27},
{11273711918250669,-27},{23918936524506707,-27},{22547423836501338,-27},{47837873049013414,-27},{45094847673002676,-27},{95675746098026828,-27},
{90189695346005352,-27},{1390633151966558664,-26},{1094312641600276571,-26},{2781266303933117328,-26},{1689082054221179547,-26},{4072416488481469031,-26},
{3378164108442359094,-26},{6654716857578172437,-26},{6756328216884718188,-26},{10664784760206978,-26},{10050151272535030,-26},{21329569520413956,-26},
{15843518768392480,-26},{30622841592615565,-26},{43723334984997307,-26},{86382474025825219,-26},{62309879129400525,-26},{99079055598735570,-26},
{93501703572661982,-26},{1092184249711937781,-25},{1095589676733279845,-25},{1290298827793016187,-25},{1391910187099561938,-25},{2580597655586032374,-25},
{2485797150322170751,-25},{4863172087295111623,-25},{4971594300644341502,-25},{9726344174590223246u,-25},{9645165377411729879u,-25},{12249136637046226,-25},
{12461975825880105,-25},{24711112462926331,-25},{24923951651760210,-25},{49635064114686541,-25},{49847903303520420,-25},{99270128229373082,-25},
{99695806607040840,-25},{1048474821670111623,-24},{1037687745468560252,-24},{1918135709014051371,-24},{1956166201386339254,-24},{3836271418028102742,-24},
{3852727757997287883,-24},{7672542836056205484,-24},{7645850871219185141,-24},{14797159574906843,-24},{10182419849537963,-24},{19513482943740410,-24},
{19939161321408168,-24},{59178966397722867,-24},{39878322642816336,-24},{99057289040539203,-24},{79756645285632672,-24},{1011011255674587117,-23},
{1003625737733616008,-23},{1533264424190971109,-23},{1530414317264107016,-23},{3054607919426864093,-23},{3060828634528214032,-23},{6109215838853728186,-23},
{6109736340101349939,-23},{11495250577410367,-23},{10359463443502712,-23},{15610786354992328,-23},{20152000510242047,-23},{31221572709984656,-23},
{28383072065405969,-23},{50522216464891187,-23},{56766144130811938,-23},{99910580176255620,-23},{95926620495864773,-23},{1001823953362410968,-22},
{1000892111090714032,-22},{1221634967271696936,-22},{1222155468519318689,-22},{2443269934543393872,-22},{2441926751247621753,-22},{4884155683295772119,-22},
{4883853502495243506,-22},{9765927180800528613u,-22},{9767707004990487012u,-22},{12375243808641187,-22},{11466614101515063,-22},{19982116035251124,-22},
{20549042412014501,-22},{39964232070502248,-22},{38713899033013377,-22},{77544278349988871,-22},{77427798066026754,-22},{1000317029731318994,-21},
{1000014848930790381,-21},{1953427180800528613,-21},{1953299656357674512,-21},{3906377524442854101,-21},{3906599312715349024,-21},{7812755048885708202,-21},
{7812721788272494923,-21},{10400328261908498,-21},{10103669540825877,-21},{15555447783582621,-21},{15438967499620504,-21},{30634058408962117,-21},
{30877934999241008,-21},{61268116817924234,-21},{61279032840278891,-21},{1000055045194807226,-20},{1000086098604020899,-20},{1562564314022426952,-20},
{1562531053409213673,-20},{3125033260613213279,-20},{3125062106818427346,-20},{6250066521226426558,-20},{6250028846205214067,-20},{10034693174587117,-20},
{10087834901584758,-20},{12249256954642984,-20},{12260172976997641,-20},{24498513909285968,-20},{24424978522354657,-20},{48901660386931311,-20},
{48849957044709314,-20},{97707953342221997,-20},{97699914089418628,-20},{1000018001824150779,-19},{1000008701056708596,-19},{1250009300767442183,-19},
{1250009772718885942,-19},{2500018601534884366,-19},{2500000471951443759,-19},{5000018129583440607,-19},{5000000943902887518,-19},{10010821763884436,-19},
{10016338880646814,-19},{19544806369565747,-19},{19536767116762378,-19},{39070539252803369,-19},{39073534233524756,-19},{78141078505606738,-19},
{78127994980721387,-19},{1000002870794378107,-18},{1000000943902887518,-18},{2000001926891490589,-18},{2000001887805775036,-18},{4000000039085715553,-18},
{4000003775611550072,-18},{8000000078171431106,-18},{8000003736525834519,-18},{10002546088740869,-18},{10001726372196631,-18},{15625819716544238,-18},
{15627994980721387,-18},{31251639433088476,-18},{31252175264177149,-18},{62503278866176952,-18},{62500535831088673,-18},{1000000039085715553,-17},
{1000000723853737572,-17},{1600000078171431106,-17},{1600000684768022019,-17},{3200000156342862212,-17},{3200000606596590913,-17},{6400000312685724424,-17},
{6400000450253728701,-17},{10000723905744726,-17},{10000496797380274,-17},{12500227108364452,-17},{12500535831088673,-17},{25000454216728904,-17},
{25000308722724221,-17},{50000145494004683,-17},{50000617445448442,-17},{1000000003754971587,-16},{1000000148832919038,-16},{1280000007509943174,-16},
{1280000145077947451,-16},{2560000015019886348,-16},{2560000137568004277,-16},{5120000030039772696,-16},{5120000122548117929,-16},{10000145494004683,-16},
{10000007093885942,-16},{20000138400118741,-16},{20000014187771884,-16},{40000124212346857,-16},{40000028375543768,-16},{80000095836803089,-16},
{80000056751087536,-16},{1000000015019886348,-15},{1000000015497691777,-15},{1024000030039772696,-15},{1024000000477805429,-15},{2048000029561967267,-15},
{2048000000955610858,-15},{4096000028606356409,-15},{4096000001911221716,-15},{8192000026695134693,-15},{8192000003822443432,-15},{10000002142034357,-15},
{10000028375543768,-15},{16000004284068714,-15},{16000026233509411,-15},{32000008568137428,-15},{32000021949440697,-15},{64000017136274856,-15},
{64000013381303269,-15},{1000000004192293909,-14},{1000000001911221716,-14},{1638400002281072193,-14},{1638400003822443432,-14},{3276800004562144386,-14},
{3276800001541371239,-14},{6553600003020773147,-14},{6553600003082742478,-14},{10000002464621803,-14},{10000003638893822,-14},{12800004929243606,-14},
{12800001174272019,-14},{25600003754971587,-14},{25600002348544038,-14},{51200001406427549,-14},{51200004697088076,-14},{1000000000900035011,-13},
{1000000000320668114,-13},{1310720000579366897,-13},{1310720000641336228,-13},{2621440001158733794,-13},{2621440000061969331,-13},{5242880001096764463,-13},
{5242880000123938662,-13},{10000000092862212,-13},{10000001127840913,-13},{10240000185724424,-13},{10240001034978701,-13},{20480000371448848,-13},
{20480000849254277,-13},{40960000742897696,-13},{40960000477805429,-13},{81920000265092267,-13},{81920000955610858,-13},{1000000000182171294,-12},
{1000000000061969331,-12},{1048576000120201963,-12},{1048576000123938662,-12},{2097152000240403926,-12},{2097152000003736699,-12},{4194304000236667227,-12},
{4194304000007473398,-12},{8388608000229193829,-12},{8388608000014946796,-12},{10000000010475821,-12},{10000000233664804,-12},{16384000020951642,-12},
{16384000223188983,-12},{32768000041903284,-12},{32768000202237341,-12},{65536000083806568,-12},{65536000160334057,-12},{1000000000041354727,-11},
{1000000000007473398,-11},{1677721600033881329,-11},{1677721600014946796,-11},{3355443200018934533,-11},{3355443200029893592,-11},{6710886400037869066,-11},
{6710886400010959059,-11},{10000000041903284,-11},{10000000006924841,-11},{13107200034978443,-11},{13107200013849682,-11},{26214400021128761,-11},
{26214400027699364,-11},{52428800042257522,-11},{52428800006570603,-11},{1000000000009168908,-10},{1000000000000596717,-10},{1342177280008572191,-10},
{1342177280001193434,-10},{2684354560007378757,-10},{2684354560002386868,-10},{5368709120004991889,-10},{5368709120004773736,-10},{10000000001597511,-10},
{10000000008168114,-10},{10485760003195022,-10},{10485760006570603,-10},{20971520006390044,-10},{20971520003375581,-10},{41943040003014463,-10},
{41943040006751162,-10},{83886080006028926,-10},{83886080003736699,-10},{1000000000001519382,-9},{1000000000000433743,-9},{1073741824001085639,-9},
{1073741824000867486,-9},{2147483648000218153,-9},{2147483648001734972,-9},{4294967296000436306,-9},{4294967296001516819,-9},{8589934592000872612,-9},
{8589934592001080513,-9},{10000000001061338,-9},{10000000000891787,-9},{16777216000169551,-9},{16777216001783574,-9},{33554432000339102,-9},
{33554432001614023,-9},{67108864000678204,-9},{67108864001274921,-9},{1000000000000045681,-8},{1000000000000344944,-8},{1717986918400091362,-8},
{1717986918400299263,-8},{3435973836800182724,-8},{3435973836800207901,-8},{6871947673600365448,-8},{6871947673600025177,-8},{10000000000339102,-8},
{10000000000051523,-8},{13421772800287579,-8},{13421772800103046,-8},{26843545600184533,-8},{26843545600206092,-8},{53687091200369066,-8},
{53687091200021559,-8},{1000000000000026474,-7},{1000000000000051651,-7},{1374389534720052948,-7},{1374389534720025177,-7},{2748779069440027771,-7},
{2748779069440050354,-7},{5497558138880055542,-7},{5497558138880022583,-7},{10000000000028283,-7},{10000000000049842,-7},{10737418240056566,-7},
{10737418240021559,-7},{21474836480035007,-7},{21474836480043118,-7},{42949672960070014,-7},{42949672960008111,-7},{85899345920061903,-7},
{85899345920016222,-7},{1000000000000012146,-6},{1000000000000003479,-6},{1099511627776008667,-6},{1099511627776006958,-6},{2199023255552001709,-6},
{2199023255552013916,-6},{4398046511104003418,-6},{4398046511104012207,-6},{8796093022208006836,-6},{8796093022208008789,-6},{10000000000007514,-6},
{10000000000008111,-6},{17179869184015028,-6},{17179869184000597,-6},{34359738368014431,-6},{34359738368001194,-6},{68719476736013237,-6},
{68719476736002388,-6},{1000000000000000293,-5},{1000000000000002832,-5},{1759218604441600586,-5},{1759218604441602539,-5},{3518437208883201172,-5},
{3518437208883201953,-5},{7036874417766402344,-5},{7036874417766400781,-5},{10000000000001931,-5},{10000000000001194,-5},{13743895347200737,-5},
{13743895347202388,-5},{27487790694401474,-5},{27487790694401651,-5},{54975581388802948,-5},{54975581388800177,-5},{1000000000000000547,-4},
{1000000000000000078,-4},{1407374883553280469,-4},{1407374883553280156,-4},{2814749767106560313,-4},{2814749767106560312,-4},{5629499534213120626,-4},
{5629499534213120624,-4},{10000000000000224,-4},{10000000000000401,-4},{10995116277760448,-4},{10995116277760177,-4},{21990232555520271,-4},
{21990232555520354,-4},{43980465111040542,-4},{43980465111040083,-4},{87960930222080459,-4},{87960930222080166,-4},{1000000000000000063,-3},
{1000000000000000062,-3},{1125899906842624126,-3},{1125899906842624124,-3},{2251799813685248251,-3},{2251799813685248249,-3},{4503599627370496501,-3},
{4503599627370496499,-3},{9007199254740993001,-3},{9007199254740992999,-3},{10000000000000042,-3},{10000000000000083,-3},{17592186044416084,-3},
{17592186044416041,-3},{35184372088832043,-3},{35184372088832082,-3},{70368744177664086,-3},{70368744177664039,-3},{1000000000000000101,-2},
{1000000000000000099,-2},{1801439850948198601,-2},{1801439850948198599,-2},{3602879701896397201,-2},{3602879701896397199,-2},{7205759403792794401,-2},
{7205759403792794399,-2},{10000000000000018,-2},{10000000000000007,-2},{14073748835532811,-2},{14073748835532814,-2},{28147497671065622,-2},
{28147497671065603,-2},{56294995342131219,-2},{56294995342131206,-2},{1000000000000000081,-1},{1000000000000000079,-1},{1441151880758558881,-1},
{1441151880758558879,-1},{2882303761517117761,-1},{2882303761517117759,-1},{5764607523034235521,-1},{5764607523034235519,-1},{10000000000000002,-1},
{10000000000000003,-1},{11258999068426244,-1},{11258999068426241,-1},{22517998136852483,-1},{22517998136852482,-1},{45035996273704966,-1},
{45035996273704964,-1},{90071992547409931,-1},{90071992547409929,-1},{1000000000000000065,0},{1000000000000000063,0},{1152921504606847105,0},
{1152921504606847103,0},{2305843009213694209,0},{2305843009213694207,0},{4611686018427388417,0},{4611686018427388415,0},{9223372036854776833u,0},
{9223372036854776831u,0},{10000000000000000,0},{10000000000000000,0},{18014398509481987,0},{18014398509481985,0},{36028797018963973,0},
{36028797018963971,0},{72057594037927945,0},{72057594037927943,0},{1000000000000000717,1},{1000000000000000307,1},{1844674407370957005,1},
{1844674407370956595,1},{3689348814741910733,1},{3689348814741912371,1},{7378697629483826381,1},{7378697629483828019,1},{10000000000000001,1},
{10000000000000007,1},{14411518807585589,1},{14411518807585595,1},{28823037615171197,1},{28823037615171203,1},{57646075230342381,1},
{57646075230342355,1},{1000000000000001065,2},{1000000000000003031,2},{1475739525896768553,2},{1475739525896770519,2},{2951479051793529897,2},
{2951479051793531863,2},{5902958103587068969,2},{5902958103587087319,2},{10000000000000025,2},{10000000000000007,2},{11529215046068489,2},
{11529215046068471,2},{23058430092137065,2},{23058430092136983,2},{46116860184274089,2},{46116860184274007,2},{92233720368548137,2},
{92233720368548055,2},{1000000000000006357,3},{1000000000000010027,3},{1180591620717426901,3},{1180591620717430571,3},{2361183241434822869,3},
{2361183241434826539,3},{4722366482869680341,3},{4722366482869749547,3},{9444732965739526357u,3},{9444732965739333419u,3},{10000000000000085,3},
{10000000000000171,3},{18446744073710037,3},{18446744073709611,3},{36893488147419861,3},{36893488147419435,3},{73786976294839509,3},
{73786976294839083,3},{1000000000000032401,4},{1000000000000098671,4},{1888946593148010129,4},{1888946593148076399,4},{3777893186295791249,4},
{3777893186295857519,4},{7555786372591877777,4},{7555786372592468335,4},{10000000000000145,4},{10000000000000879,4},{14757395258968721,4},
{14757395258969455,4},{29514790517937809,4},{29514790517938543,4},{59029581035875985,4},{59029581035876719,4},{1000000000000255517,5},
{1000000000000268771,5},{1511157274519004701,5},{1511157274518493667,5},{3022314549037229597,5},{3022314549037767139,5},{6044629098073679389,5},
{6044629098076314083,5},{10000000000003613,5},{10000000000000483,5},{11805916207175197,5},{11805916207180259,5},{23611832414357021,5},
{23611832414353891,5},{47223664828720669,5},{47223664828701155,5},{94447329657447965,5},{94447329657395683,5},{1000000000000942393,6},
{1000000000000630471,6},{1208925819618091321,6},{1208925819617779399,6},{2417851639231832377,6},{2417851639231520455,6},{4835703278467703097,6},
{4835703278459002567,6},{9671406556922667321u,6},{9671406556930744007u,6},{10000000000008505,6},{10000000000024263,6},{18889465931489593,6},
{18889465931505351,6},{37778931863085369,6},{37778931863035591,6},{75557863726014777,6},{75557863725964999,6},{1000000000011093669,7},
{1000000000009353563,7},{1934281311397955237,7},{1934281311412992347,7},{3868562622820206245,7},{3868562622801688923,7},{7737125245664708261,7},
{7737125245579082075,7},{10000000000083621,7},{10000000000047451,7},{15111572745307813,7},{15111572745402715,7},{30223145490794149,7},
{30223145490626907,7},{60446290981766821,7},{60446290981075291,7},{1000000000025497121,8},{1000000000062058975,8},{1547425049213472289,8},
{1547425049115816415,8},{3094850098378116641,8},{3094850098280460767,8},{6189700196707405345,8},{6189700196609749471,8},{10000000000265761,8},
{10000000000127455,8},{12089258197192225,8},{12089258197053919,8},{24178516393791009,8},{24178516392604127,8},{48357032784891425,8},
{48357032787898847,8},{96714065571286561,8},{96714065574293983,8},{1000000000181050477,9},{1000000000107832211,9},{1237940039341481069,9},
{1237940039536698259,9},{2475880078780570733,9},{2475880078975787923,9},{4951760158732491885,9},{4951760158927709075,9},{9903520316488850541u,9},
{9903520314536584083u,9},{10000000000892013,9},{10000000003171219,9},{19342813119290477,9},{19342813121569683,9},{38685626235526253,9},
{38685626229416851,9},{77371252467997805,9},{77371252461888403,9},{1000000001467096905,10},{1000000001506140343,10},{1980704066733743945,10},
{1980704064625303735,10},{3961408128118300489,10},{3961408126009860279,10},{7922816268067282761,10},{7922816257368907959,10},{10000000009772873,10},
{10000000015261879,10},{15474250493599561,10},{15474250499088567,10},{30948501006720841,10},{30948501045764279,10},{61897002032963401,10},
{61897002072006839,10},{1000000001697462645,11},{1000000001275774603,11},{1584563257049430389,11},{1584563265217676939,11},{3169126509593049461,11},
{3169126500581426827,11},{6338253049040025973,11},{6338253040028403339,11},{10000000047200629,11},{10000000028165771,11},{12379400487123317,11},
{12379400468088459,11},{24758801031838069,11},{24758800878585483,11},{49517601852832117,11},{49517601968014987,11},{99035203494820213,11},
{99035204146873995,11},{1000000009259728561,12},{1000000028073247055,12},{1267650637295795889,12},{1267650621749576015,12},{2535301266818481841,12},
{2535301251272261967,12},{5070602663302807217,12},{5070602647756587343,12},{10000000261045937,12},{10000000284082511,12},{19807041343209137,12},
{19807040829374799,12},{39614081355759281,12},{39614082989408591,12},{79228163528343217,12},{79228165161992527,12},{1000000095812534205,13},
{1000000010239918147,13},{1014120642611724221,13},{1014120694478061635,13},{2028241311156617149,13},{2028241363022954563,13},{4056482648246403005,13},
{4056482700112740419,13},{8112964222914346941,13},{8112964274780684355,13},{10000001182941117,13},{10000001509670979,13},{15845635282649021,13},
{15845635609378883,13},{31691270728662973,13},{31691271055392835,13},{63382533030756285,13},{63382533357486147,13},{1000000212766336601,14},
{1000000443041929639,14},{1622593724192171609,14},{1622592854956136871,14},{3245188113277953625,14},{3245189443065174439,14},{6490376891449517657,14},
{6490378221236738471,14},{10000007541335641,14},{10000005888694695,14},{12676506606151257,14},{12676513543444903,14},{25353025270883929,14},
{25353015028308391,14},{50706028240610905,14},{50706052357773735,14},{1000001734241689925,15},{1000001120589831867,15},{1298077137508507973,15},
{1298080921903161019,15},{2596164963307364677,15},{2596151155515973307,15},{5192305430532989253,15},{5192326807113686715,15},{10000004303298885,15},
{10000009126731451,15},{10141205648122181,15},{10141210471554747,15},{20282516787175749,15},{20282452891131579,15},{40565001626329413,15},
{40564937730285243,15},{81129696426729797,15},{81130182286499515,15},{1000002808194900033,16},{1000000046636621759,16},{1038468122981015617,16},
{1038465361422737343,16},{2076987641741025345,16},{2076949695810658239,16},{4153885941772689473,16},{4153847995842322367,16},{8307823279324373057,16},
{8307926070882361279,16},{10000202083180609,16},{10000189303971775,16},{16226049236508737,16},{16226036457299903,16},{32452916717133889,16},
{32452354182111167,16},{64904452655128641,16},{64903890120105919,16},{1000056239348326413,17},{1000104945157595123,17},{1661733540850901005,17},
{1661641509171814387,17},{3323421065862258701,17},{3323329034183172083,17},{6646796115884974093,17},{6646704084205887475,17},{10000444361613325,17},
{10000771659259891,17},{12981770140327949,17},{12982097437974515,17},{25961504906223629,17},{25961832203870195,17},{51929770531037197,17},
{51925699782172659,17},{1000427565392922217,18},{1000296569066420631,18},{1330034763121100393,18},{1329340816841177495,18},{2660285503055660649,18},
{2658465656868895127,18},{5318535183111095913,18},{5318967136738015639,18},{10002884255090281,18},{10003829323921815,18},{10387713324811881,18},
{10388658393643415,18},{20780297230550633,18},{20772446206359959,18},{41565465042028137,18},{41540021831793047,18},{83135800664983145,18},
{83145541826836887,18},{1001332181783137813,19},{1000517852583047659,19},{1065508476473167381,19},{1064694147273077227,19},{2135113387973660181,19},
{2134299058773570027,19},{4256308812465163797,19},{4264501682519814635,19},{8534728458467134997,19},{8542921328521785835,19},{10030090366340629,19},
{10025001724293611,19},{16627160132996629,19},{16657255863038443,19},{33269368131014165,19},{33299463861055979,19},{66694521615404565,19},
{66724617345446379,19},{1002582709972681425,20},{1015029923089300783,20},{1714151451097219793,20},{1708584265704357167,20},{3461548106516972241,20},
{3455980921124109615,20},{6884283823318549201,20},{6806659043887758639,20},{10031573346730705,20},{10093887488081199,20},{13338904323080913,20},
{13401218464431407,20},{26708965716837073,20},{26771279858187567,20},{54012038457770705,20},{54074352599121199,20},{1038186072685448541,21},
{1051484154414461603,21},{1434502839894052189,21},{1447800921623065251,21},{2803597126614682973,21},{2961010396419551907,21},{5541785700055944541,21},
{5987429346012525219,21},{10520932714843485,21},{10308215561745059,21},{10802407691554141,21},{11715590445298339,21},{21498456806559069,21},
{21285739653460643,21},{45142354850254173,21},{44929637697155747,21},{87926551310273885,21},{92217433784545955,21},{1021888027165675385,22},
{1087729322527754352,22},{1454233591393243001,22},{1428070170123874439,22},{2895385472151801721,22},{2869222050882433159,22},{4624767729062072185,22},
{4598604307792703623,22},{9249535458124144370u,22},{9197208615585407246,22},{10829910820999033,22},{11688087315853447,22},{17585310262054777,22},
{18443486756909191,22},{40103308398907257,22},{49968684148502663,22},{80206616797814514,22},{76990281912725639,22},{1635020843465080616,23},
{1380889463401279515,23},{1849907091624828874,23},{2761778926802559030,23},{6233625151257784239,23},{5523557853605118060,23},{9933439334507441987u,23},
{8513304739202109629,23},{10293733208776542,23},{13296620152520920,23},{18657665486499759,23},{17371131532464209,23},{49110507653648249,23},
{47823973699612699,23},{85139304672612217,23},{95647947399225398,23},{1166003215241531257,24},{1104711570721023612,24},{1621939132830396335,24},
{2209423141442047224,24},{3182586621140285025,24},{4418846282884094448,24},{6365173242280570050,24},{7601432904024379473,24},{10163618236880845,24},
{10637296122016736,24},{12309790262262951,24},{11795176680648731,24},{24619580524525902,24},{35642836832753303,24},{60262417357279205,24},
{71285673665506606,24},{98478322098103608,24},{94361413445189848,24},{1004267191351102875,25},{1112760593917571630,25},{1273034648456114010,25},
{1248517990647910952,25},{2546069296912228020,25},{3782328958656037443,25},{5092138593824456040,25},{8849950894672290425,25},{9095117472754321005,25},
{9988143925183287616u,25},{12052483471455841,25},{11640792606164465,25},{24104966942911682,25},{23281585212328930,25},{48209933885823364,25},
{35951604981721835,25},{84161538867545199,25},{71903209963443670,25},{1018427718764891208,26},{1769990178934458085,26},{2036855437529782416,26},
{3539980357868916170,26},{4073710875059564832,26},{6862128772758914125,26},{8147421750119129664,26},{8365253693098047879,26},{13081710634684281,26},
{11434947173518777,26},{26638970896790263,26},{14380641992688734,26},{41019612889478997,26},{28761283985377468,26},{69780896874856465,26},
{57522567970754936,26},{1328859365955999182,27},{1372425754551782825,27},{2701285120507782007,27},{2744851509103565650,27},{5402570241015564014,27},
{5489703018207131300,27},{9933812710115455168u,27},{5881800515569184087,27},{10084928805810064,27},{11036028060653466,27},{13956179374971293,27},
{17351880316710821,27},{27912358749942586,27},{34703760633421642,27},{55824717499885172,27},{74874448287465757,27},{89950754486476593,27},
{95248653937902925,27},{1010807826449858974,28},{1097940603641426260,28},{2021615652899717948,28},{2195881207282852520,28},{3163122645136927851,28},
{4391762414565705040,28},{5446136629611347657,28},{8783524829131410080,28},{9498148824157618738u,28},{9646071712300247755u,28},{16068275061617646,28},
{10601348040995173,28},{32136550123235292,28},{19049730787580585,28},{35946496280751409,28},{51186280910815877,28},{71892992561502818,28},
{89285742485977047,28},{1059642748293743728,29},{1756704965826282016,29},{1943263764454985847,29},{3513409931652564032,29},{3710505796777470085,29},
{7202841595437629673,29},{7421011593554940170,29},{9829118155430217512u,29},{11132247813766308,29},{13285213108176069,29},{16995962379431505,29},
{26570426216352138,29},{33991924758863010,29},{54897030182071313,29},{66227671768358983,29},{64471494018991946,29},{1094144623620497235,30},
{1370159626234525291,30},{2916340984601552191,30},{2740319252469050582,30},{5832681969203104382,30},{5656660237070602773,30},{6160760624637556315,30},
{9905146617081192674u,30},{11330641586287670,30},{10594364972701627,30},{13596769903545204,30},{20905105423208303,30},{27193539807090408,30},
{43566388595783643,30},{88888954940934323,30},{52630901864813779,30},{91834061395278495,30},{98237092732159410,30},{1051337431028899397,31},
{1060923354561119911,31},{1232152124927511263,31},{2121846709122239822,31},{3001955369784747867,31},{4243693418244479644,31},{7245648788029227511,31},
{8487386836488959288,31},{9357909573619246819u,31},{9844155967335337233u,31},{18129026538060272,31},{16372848788693235,31},{36258053076120544,31},
{27952735811276213,31},{51112509856442169,31},{55905471622552426,31},{97432057946774081,31},{73796712419617271,31},{1003671384010512407,32},
{1845963491829569556,32},{1874194121140799938,32},{3725214145379195331,32},{3748388242281599876,32},{7450428290758390662,32},{7496776484563199752,32},
{9941069485228404693u,32},{10668851817560012,32},{13098279030954588,32},{21403596295798919,32},{16676527190367557,32},{42807192591597838,32},
{47600154357708095,32},{85614385183195676,32},{90407346949305933,32},{1022632374560780971,33},{1470113361119644401,33},{1512670161600662438,33},
{2973513883959345021,33},{4219886751799557707,33},{4153312428359445269,33},{8439773503599115414,33},{6246612223399196013,33},{11624572081952960,33},
{10020815092701221,33},{14247099976972981,33},{19040061743083238,33},{23753952316378821,33},{42820371123733617,33},{61834075802545297,33},
{85640742247467234,33},{95015809265515284,33},{95437522293860212,33},{1057015185368271343,34},{1136146094831648058,34},{2126586956759806963,34},
{1581435783215643182,34},{4253173913519613926,34},{2884017686647572335,34},{6313186546839308451,34},{7961196653495064071,34},{9875504053911269443u,34},
{9900617225957797997u,34},{17085977146658954,34},{10470716105482203,34},{37037188527275439,34},{20941432210964406,34},{69439557674069969,34},
{41882864421928812,34},{94131016692253595,34},{83765728843857624,34},{1698758248203192715,35},{1153607074659028934,35},{3511569365524523897,35},
{2307214149318057868,35},{6477987557504884013,35},{4614428298636115736,35},{7682342773711350042,35},{8455599685491790757,35},{11595724147647969,35},
{12960947658717812,35},{18826203338450719,35},{25921895317435624,35},{37652406676901438,35},{53478588569576781,35},{91130995246478219,35},
{73670015419097343,35},{1513657980918642315,36},{1123158189730566677,36},{3027315961837284630,36},{1627710850036780782,36},{6054631923674569260,36},
{3100770317717473421,36},{9155402241392042681,36},{9464705006104218967u,36},{11676596474738676,36},{10041798540033143,36},{21718395014771819,36},
{14407043496878362,36},{33287161720056219,36},{38963715303244143,36},{56424695130625019,36},{88077058915975705,36},{97885846524208903,36},
{97364049069828916,36},{1210926384734913852,37},{1022247657669323856,37},{1769219895335973279,37},{2078522660048149565,37},{3538439790671946558,37},
{2885806916538092133,37},{8348117984902100113,37},{5771613833076184266,37},{9817407132063999010u,37},{9999770504918146711u,37},{11044243254747318,37},
{17615411783195141,37},{28659655037942459,37},{35230823566390282,37},{57319310075884918,37},{63890478604332741,37},{94925114566426367,37},
{80611275442267983,37},{1174739173440937965,38},{1923871277692061422,38},{2054397852518832307,38},{3847742555384122844,38},{4108795705037664614,38},
{5902140407902955151,38},{8217591410075329228,38},{8966723514326452685,38},{10149628309487419,38},{13975179219829839,38},{20299256618974838,38},
{26870425147422661,38},{52660917002608305,38},{41678446530186693,38},{93259430240557981,38},{71294489295714757,38},{1148633858475583788,39},
{1480080923281040413,39},{2211029742310957369,39},{1793344702865290537,39},{4422059484621914738,39},{3586689405730581074,39},{8844118969243829476,39},
{7173378811461162148,39},{10532183400521661,39},{11612116692758678,39},{21064366801043322,39},{19083859365006403,39},{40148226166049725,39},
{38167718730012806,39},{54191137366745273,39},{76335437460025612,39},{98121019256431721,39},{99555892443928641,39},{1253055118337000496,40},
{1014289756095488757,40},{2002187222588123953,40},{2134766048510306603,40},{4004374445176247906,40},{3235293779246005567,40},{8008748890352495812,40},
{5171191588873038195,40},{16059290466419890,40},{10046024498934287,40},{32118580932839780,40},{20092048997868574,40},{78315944896062531,40},
{40184097995737148,40},{90342476831033737,40},{80368195991474296,40},{1000098551387928836,41},{1004265236305847977,41},{1909382044442596098,41},
{1034238317774607639,41},{2837557301479457617,41},{3049683422954949857,41},{4906033937028672895,41},{6099366845909899714,41},{9812067874057345790u,41},
{8273906542196861112,41},{12847432373135912,41},{13668332811300618,41},{25694864746271824,41},{27336665622601236,41},{51389729492543648,41},
{41415448652984207,41},{89521576392869031,41},{69573014713750149,41},{1580586556155583126,42},{1066057235995931475,42},{2986045586512302185,42},
{2132114471991862950,42},{5972091173024604370,42},{5118160058504165135,42},{7849654299245876632,42},{9042987208127103451,42},{11616081715888853,42},
{12248106950104024,42},{20580586913334053,42},{13889907826433436,42},{38509597308224453,42},{25128239134423219,42},{98231806763998130,42},
{50379953850429407,42},{1194418234604920874,43},{1023632011700833027,43},{2388836469209841748,43},{2047264023401666054,43},{4777672938419683496,43},
{4094528046803332108,43},{9555345876839366992u,43},{6654150738917261703,43},{10011542534364447,43},{10031200073736752,43},{19646361352799626,43},
{13257882592218265,43},{38207396981905197,43},{26515765184436530,43},{75329468240116339,43},{53031530368873060,43},{81003048021752552,43},
{99551106395581790,43},{1024717337424527082,44},{1022980816266616594,44},{1877346061076533451,44},{1364553262074792288,44},{2901195137922105289,44},
{3582603508380546189,44},{4948893291613248965,44},{8018704000992053991,44},{9897786583226497930u,44},{8700112371450494891,44},{10823371218513423,44},
{10606306073774612,44},{21429677292288035,44},{21212612147549224,44},{42859354584576070,44},{42642289439837259,44},{85501644024413329,44},
{85284578879674518,44},{1570712294370235046,45},{1262342006506026153,45},{3105617649059637559,45},{2524684013012052306,45},{6211235298119275118,45},
{3378180997243013919,45},{9589416295362289037u,45},{6756361994486027838,45},{10091326930086891,45},{12691704066416982,45},{17143741833830428,45},
{16926676689091617,45},{34287483667660856,45},{33853353378183234,45},{68574967335321712,45},{67706706756366468,45},{1270892611368521050,46},
{1126060332414337973,46},{1816019307735273770,46},{2252120664828675946,46},{2833054300876261199,46},{4504241329657351892,46},{5666108601752522398,46},
{9807466973908990125u,46},{10070060875666574,46},{10240189311029110,46},{14062297698646440,46},{13194037119691196,46},{28124595397292880,46},
{26388074239382392,46},{56249190794585760,46},{47698585932090863,46},{85242046770833884,46},{95397171864181726,46},{1016714089094816840,47},
{1017997705279499196,47},{1452815446188219016,47},{1961493394781798025,47},{3414308840970017041,47},{3922986789563596050,47},{7337295630533613091,47},
{7845973579127192100,47},{9587811775131436092u,47},{8791394692906514463,47},{11249838158917152,47},{16006496659420484,47},{31692089272670379,47},
{22820580364004893,47},{45320256681839197,47},{63705082591511347,47},{90640513363678394,47},{90961417409848983,47},{1060516767231859411,48},
{1569194715825438420,48},{2629711483057297831,48},{3138389431650876840,48},{5768100914708174671,48},{6276778863301753680,48},{7860360535808759231,48},
{8877716432995917249,48},{12548474090599916,48},{12869378136770505,48},{25417852227370421,48},{18384825909672150,48},{50835704454740842,48},
{36448747773173711,48},{57868730772439113,48},{87284452227914553,48},{1074903723913426542,49},{1255355772660350736,49},{1493355648133543454,49},
{2510711545320701472,49},{3675841293607590111,49},{5021423090641402944,49},{7351682587215180222,49},{8040812584555683425,49},{10348938239428647,49},
{10295502509416404,49},{17328528827114675,49},{14707860727737720,49},{34657057654229350,49},{32036389554852395,49},{54927158626891569,49},
{78459735791271921,49},{95467360572216007,49},{99371644856275318,49},{1050611664184239225,50},{1017355897187158018,50},{1870743236788460537,50},
{1608162516911136685,50},{3741486473576921074,50},{3216325033822273370,50},{5218358630549395833,50},{6432650067644546740,50},{9222425824003640759,50},
{9550362939175351757u,50},{13862823061691740,50},{12814555821940958,50},{27725646123383480,50},{25629111643881916,50},{55451292246766960,50},
{38967801085698265,50},{94419093332465225,50},{77935602171396530,50},{1431007166396426230,51},{1286530013528909348,51},{2264614316604446315,51},
{2573060027057818696,51},{4837674343662265011,51},{5146120054115637392,51},{9983794397777902403u,51},{6977302912117533061,51},{11090258449353392,51},
{10193887722564003,51},{18883818666493045,51},{15587120434279306,51},{34470939100772351,51},{31174240868558612,51},{68941878201544702,51},
{62348481737117224,51},{1144805733117140984,52},{1214291437095150907,52},{1811691453283557052,52},{2120137163736929433,52},{2837017183163016807,52},
{5026640050877956163,52},{5674034366326033614,52},{9266914378351815029u,52},{10306399922345736,52},{10017615247401919,52},{15107054933194436,52},
{20324015169747655,52},{42024466567369569,52},{28837673638514613,52},{84048933134739138,52},{59051783504903485,52},{95859289835719835,52},
{93106417379971317,52},{1020237780942253028,53},{1094811433857469678,53},{1606626307307665101,53},{1538836586308724087,53},{2426886891211232905,53},
{3864038896021545471,53},{5504560063828681079,53},{7728077792043090942,53},{9707547564844931620u,53},{9165229796853403508,53},{13186792928854956,53},
{11810356700980697,53},{19171857967143967,53},{23620713401961394,53},{38343715934287934,53},{47241426803922788,53},{76687431868575868,53},
{94482853607845576,53},{1155143789564889027,54},{1621541037890708431,54},{3329851926696785053,54},{2961073860535993323,54},{4902583373504979647,54},
{5922147721071986646,54},{9805166747009959294u,54},{7310490134799785375,54},{10210237747270183,54},{13346566304452281,54},{22116458473609275,54},
{19235767317382897,54},{44232916947218550,54},{31014169343244129,54},{88465833894437100,54},{95923199185958765,54},{1106334198482375190,55},
{1388342413727798729,55},{1757120479888590459,55},{1462098026959957075,55},{4533805307344187917,55},{2924196053919914150,55},{9067610614688375834,55},
{7458001361264102067,55},{10133546526983467,55},{10338056447748043,55},{17693166778887420,55},{19184639837191753,55},{35386333557774840,55},
{38369279674383506,55},{70772667115549680,55},{76738559348767012,55},{92735743148585523,55},{91653289931810342,55},{1024770042640290937,56},
{1014358652493723061,56},{2049540085280581874,56},{1169678421567965660,56},{3948966096560205087,56},{2339356843135931320,56},{7897932193120410174,56},
{4678713686271862640,56},{9657655520545642602u,56},{9357427372543725280u,56},{14154533423109936,56},{11551685886467967,56},{28309066846219872,56},
{25706219309577903,56},{56618133692439744,56},{54015286155797775,56},{70714824592424770,56},{97619182165027674,56},{1609609253424273767,57},
{1459495179423315106,57},{2545351990678646295,57},{1871485474508745056,57},{5090703981357292590,57},{3742970949017490112,57},{9807769594546601263u,57},
{7485941898034980224,57},{13405904767801524,57},{10803057231159555,57},{24208961998961079,57},{21606114462319110,57},{45815076461280189,57},
{43212228924638220,57},{91630152922560378,57},{58483921078398283,57},{1018140796271458518,58},{1362415076373015797,58},{2036281592542917036,58},
{2724830152746031594,58},{4072563185085834072,58},{5449660305492063188,58},{6453119057730308387,58},{9207313298542766619,58},{11245293321569613,58},
{10065997080476125,58},{15861340274306807,58},{17284891569855288,58},{33146231844162095,58},{34569783139710576,58},{54457522246207833,58},
{69139566279421152,58},{94233000459202347,58},{99927205641396271,58},{1003458752238245199,59},{1113423331551553948,59},{2219354890150710093,59},
{1164659734732009421,59},{4438709780301420186,59},{2329319469464018842,59},{7405341406788098113,59},{7830216178136537503,59},{9939606488973938847u,59},
{9317277877856075368u,59},{13258492737664838,59},{11460924967460959,59},{24719417705125797,59},{22921849934921918,59},{49438835410251594,59},
{64120879443464913,59},{98877670820503188,59},{77005355706474353,59},{1769490493758649832,60},{1062186928371098475,60},{3596452010556939209,60},
{1954423948202821194,60},{7192904021113878418,60},{4021326781905378599,60},{9854631534704250969u,60},{8042653563810757198,60},{11325821298213422,60},
{12105148780611431,60},{18277179573621077,60},{28584760584028629,60},{32179896124436387,60},{57169521168057258,60},{89349417292493645,60},
{80600491246882111,60},{1166660950559774474,61},{1008205246628326627,61},{1834966380109349589,61},{2514766014266852613,61},{3171577239208499819,61},
{5527887549543904585,61},{8201109267742205045,61},{7204398225721806327,61},{11564734103621283,61},{10307581010407552,61},{17869883458498729,61},
{15868667630733676,61},{35739766916997458,61},{33738551089232405,61},{71479533833994916,61},{55982897570536901,61},{96982249236278196,61},
{95956068518953378,61},{1032999864649859451,62},{1105577509908780917,62},{1640221853548441009,62},{2211155019817561834,62},{3280443707096882018,62},
{3851376873366002843,62},{6560887414193764036,62},{7131820580462884861,62},{9696175830772803122u,62},{9715551822377304928u,62},{11299197585839862,62},
{16594747688384565,62},{21695290768841221,62},{33189495376769130,62},{54884786145610351,62},{42487477134843939,62},{98275367683292793,62},
{84974954269687878,62},{1879235450786973271,63},{1089617013812455019,63},{3758470901573946542,63},{1950860761117261708,63},{7516941803147893084,63},
{3996532163883845775,63},{9914861101478200549u,63},{7993064327767691550,63},{11518819870825172,63},{13275798150707652,63},{29211678984136287,63},
{26551596301415304,63},{58423357968272574,63},{55763275285551591,63},{80557893307084415,63},{75237727941642449,63},{1396538260742917840,64},
{1027679699284417485,64},{2698265879836513321,64},{1598612865553538310,64},{5849816957642060275,64},{3197225731107076620,64},{9960535754779730215u,64},
{6394451462214153240,64},{11343122042836924,64},{10088621984021925,64},{16111578661416883,64},{20177243968043850,64},{32223157322833766,64},
{36288822629460733,64},{64446314645667532,64},{49740318608156633,64},{96367306838319328,64},{99480637216313266,64},{1169963391528412055,65},
{1004842372633652652,65},{2357504377368183371,65},{1278890292442830648,65},{4732586349047726003,65},{2557780584885661296,65},{9465172698095452006u,65},
{5828778028284437987,65},{9949880830560897008u,65},{9728836612765840921u,65},{17456728259286473,65},{16141795174435080,65},{34913456518572946,65},
{33598523433721553,65},{69826913037145892,65},{44359720216678273,65},{93979172772762118,65},{88719440433356546,65},{1016081196229720814,66},
{1907096615068177810,66},{2032162392459441628,66},{3814193230136355620,66},{6844859224514158801,66},{6559572481108912643,66},{8128649569837766512,66},
{9768037035812057425u,66},{12553756680919555,66},{12913436139548064,66},{19847781022433538,66},{25826872279096128,66},{34076150246832995,66},
{57273156356226337,66},{96968718401093413,66},{85729894805025251,66},{1540143890945979455,67},{1254857147540733297,67},{3080287781891958910,67},
{1953607407162411485,67},{6160575563783917820,67},{3351107926405767861,67},{9511683490189685681u,67},{6702215852811535722,67},{10043005344735644,67},
{11598503054696671,67},{21641508399432315,67},{18413733104063270,67},{43283016798864630,67},{28816417907427423,67},{86566033597729260,67},
{56077338104893819,67},{99710694530099422,67},{97688077318350431,67},{1232115112756783564,68},{1097747176946673011,68},{1457451187702693049,68},
{1562885925729929188,68},{2914902375405386098,68},{4132550889270732455,68},{5829804750810772196,68},{9271880816352338989u,68},{9972653693185766168u,68},
{9999625929438730445u,68},{17313206719545852,68},{14730986483250616,68},{25324255020244969,68},{38764131385347967,68},{50648510040489938,68},
{73390544824439671,68},{78554985297030143,68},{86830421189542669,68},{1367316757724329255,69},{1653020355708292982,69},{2734633515448658510,69},
{3306040711416585964,69},{5033895189054370395,69},{6612081422833171928,69},{9632418536265794165u,69},{9197046694422847540,69},{13023021786385429,69},
{13439876365102998,69},{18604316837693470,69},{26462898151488427,69},{52508941724259285,69},{37625488254104509,69},{89717575399646225,69},
{75250976508209018,69},{1006779037810874079,70},{1540072851166603712,70},{1926483707253158833,70},{1839409338884569508,70},{3852967414506317666,70},
{3765893046137728341,70},{7705934829012635332,70},{7618860460644046007,70},{10501788344851857,70},{10918642923569426,70},{21003576689703714,70},
{24063638299478183,70},{45067214989181897,70},{48127276598956366,70},{90134429978363794,70},{96254553197912732,70},{99645694412874618,70},
{99864164847619367,70},{1005782340460966669,71},{1205906616101202186,71},{1280139986625783008,71},{2516302474244711562,71},{2560279973251566016,71},
{5032604948489423124,71},{5103145072829414167,71},{9734327297178206813u,71},{14354812063943396,71},{15300308048872345,71},{28709624127886792,71},
{23534996893266803,71},{40004374582055719,71},{64484867460251471,71},{80008749164111438,71},{94139987573067212,71},{1003390266821188885,72},
{1002803180391109163,72},{1021098683709946611,72},{1298562489629273007,72},{2037540219824990205,72},{2597124979258546014,72},{4075080439649980410,72},
{7602159673085060415,72},{8150160879299960820,72},{9615319069766845609u,72},{12140576704107135,72},{15723221173841449,72},{17315203938727124,72},
{20997518143452179,72},{34630407877454248,72},{41995036286904358,72},{65777841020164923,72},{80507097839065143,72},{1010062673075636170,73},
{1408976743105217747,73},{1630032175859992164,73},{3254953352519311437,73},{3260064351719984328,73},{6473222007422372889,73},{6520128703439968656,73},
{9956196742165945889u,73},{11722510416139259,73},{11185387045175730,73},{15941947991827843,73},{18887799355607887,73},{28400921248912113,73},
{48224522915446493,73},{53318867763080653,73},{92966071096149413,73},{1030960521484097608,74},{1261207844030936277,74},{2459351152782725389,74},
{2347895961270931053,74},{4918702305565450778,74},{4695791922541862106,74},{9837404611130901556u,74},{7322325862592278999,74},{10022556378067642,74},
{10172035342229589,74},{13450153340410989,74},{14413644537537595,74},{23417331946078405,74},{39276213279305909,74},{43351689157413237,74},
{75069451823868245,74},{87074368368589325,74},{94411307891839322,74},{1028322537717807890,75},{1040935444773637323,75},{2056645075435615780,75},
{1375301019309020331,75},{3431946094744636111,75},{2750602038618040662,75},{6863892189489272222,75},{6182548133362676773,75},{8436877777710222359,75},
{9639720042218971750u,75},{12849907513174935,75},{15013890364773649,75},{17414873673717865,75},{23061831260060152,75},{34829747347435730,75},
{61374553342239455,75},{69659494694871460,75},{82272401750700893,75},{1645316060348492624,76},{1152390636285431659,76},{3290632120696985248,76},
{2609288064570389799,76},{4160394808887115181,76},{5218576129140779598,76},{9378970938027894779u,76},{7711776033775177400,76},{10279926010539948,76},
{12274910668447891,76},{13931898938974292,76},{24549821336895782,76},{27863797877948584,76},{49099642673791564,76},{55727595755897168,76},
{85586378291753695,76},{1165517942627966512,77},{1255351489878888803,77},{1452521659504113189,77},{2510702979757777606,77},{4931572412264632921,77},
{2994876866259148669,77},{9863144824529265842u,77},{5989753732518297338,77},{10100148267367189,77},{10360722754568780,77},{12998706520858498,77},
{17117275658350739,77},{38610320097546429,77},{34234551316701478,77},{72844871414247907,77},{68469102633402956,77},{86486577043488180,77},
{97556286239201353,77},{1050252821550703187,78},{1058181320253664417,78},{1936695546005484252,78},{1233884165404028384,78},{3873391092010968504,78},
{2377934783557134477,78},{6251325875568102981,78},{4755869567114268954,78},{9152404945224848744,78},{9511739134228537908u,78},{13024426485193769,78},
{12818666770511601,78},{30013102321868153,78},{25637333541023202,78},{60026204643736306,78},{38558880168875887,78},{98585084812612193,78},
{77117760337751774,78},{1142464918412513847,79},{1585289855704756318,79},{2201439088536474387,79},{3170579711409512636,79},{4402878177072948774,79},
{6341159422819025272,79},{8805756354145897548,79},{7310300045692063521,79},{13127306342534853,79},{10718567743213935,79},{26254612685069706,79},
{13508636783466640,79},{53302075240435535,79},{27017273566933280,79},{99468501648205963,79},{54034547133866560,79},{1091101909646908066,80},
{1290004273391410903,80},{2060242532519946315,80},{1938281245746076498,80},{5372018799945987023,80},{3876562491492152996,80},{6745513821625951233,80},
{9248581291438140019u,80},{10660415048087107,80},{10160553935163394,80},{21320830096174214,80},{10806909426773312,80},{34506289133835895,80},
{36091988874428141,80},{69012578267671790,80},{52948708506198027,80},{86662147769737799,80},{93004946732106783,80},{1068019586555718160,81},
{1038387592146607967,81},{1648194026015957052,81},{1251533734906094393,81},{3296388052031914104,81},{3998523778266022813,81},{5097319795609994181,81},
{7997047556532045626,81},{8753869526067802661,81},{9921085023263138535u,81},{13802515653534358,81},{13126861286187199,81},{31452085155600367,81},
{18559614875311096,81},{66751224159732385,81},{37119229750622192,81},{95031909834148260,81},{73094023122101369,81},{1617646482503532447,82},
{1282081278418518998,82},{3235292965007064894,82},{1984217004652627707,82},{6470585930014129788,82},{3968434009305255414,82},{8881552994737387553,82},
{7356922466426100539,82},{13350244831946477,82},{13579132107775080,82},{26700489663892954,82},{19235269242658255,82},{53400979327785908,82},
{38241651209487907,82},{76254415143147211,82},{76483302418975814,82},{1062138965129061842,83},{1257643243608579314,83},{2704223482442533973,83},
{1935340935032748339,83},{5408446964885067946,83},{3290736317881086389,83},{9657002825401315314u,83},{6001527083577762489,83},{10634418410391461,83},
{10863305686220064,83},{21268836820782922,83},{15388215394126604,83},{42537673641565844,83},{24666922085768287,83},{85075347283131688,83},
{54985578322364289,83},{96836590136444324,83},{92100405088931021,83},{1071181739770386186,84},{1046528907233595371,84},{1815411454643381005,84},
{1664261858463080729,84},{4210768461471172299,84},{2748578164741751169,84},{8421536922942344598,84},{5219509969659692601,84},{9883727219671765728u,84},
{9229823169876982994u,84},{10630896023147093,84},{17198179277289220,84},{25568381640105227,84},{23307687979774141,84},{62225433855014753,84},
{35526705384743983,84},{86663468664954437,84},{71053410769487966,84},{1452329163714704804,85},{1739836656553230867,85},{2032274715899115093,85},
{3479673313106461734,85},{4064549431798230186,85},{6959346626212923468,85},{8129098863596460372,85},{8406745223420270109,85},{13349364235135385,85},
{13758543421831376,85},{16019237082162462,85},{21768161962912607,85},{48466890433183377,85},{43536323925825214,85},{92003214359008591,85},
{87072647851650428,85},{1169752237383536904,86},{1272921874901287738,86},{1570290500754530127,86},{2545843749802575476,86},{5511948029005576827,86},
{4814041139781341215,86},{5860901473617694633,86},{9628082279562682430u,86},{10679491388108308,86},{10348064785350261,86},{11829276364258337,86},
{16428416268858453,86},{37787399045075069,86},{32856832537716906,86},{75574798090150138,86},{70644231582791975,86},{89703644406708533,86},
{96913364599360483,86},{1046860333836353418,87},{1072350376019907630,87},{2009668561792621661,87},{1925616455912536486,87},{2707575451016857273,87},
{3851232911825072972,87},{5415150902033714546,87},{9014227496218531993,87},{9518540131499043043u,87},{9485468109986066292u,87},{13407874297293200,87},
{14128846316558395,87},{33188259140474953,87},{28257692633116790,87},{50142874720345027,87},{56515385266233580,87},{93913238894801501,87},
{74190972865368849,87},{1345382514920420119,88},{1278140830216351979,88},{2690765029840840238,88},{2556281660432703958,88},{4069768387113294427,88},
{6424324993433793965,88},{8139536774226588854,88},{8913364969162429783,88},{10726299437834560,88},{11303077053246716,88},{27825109421557673,88},
{22606154106493432,88},{38839797667098311,88},{45212308212986864,88},{60869174158179587,88},{90424616425973728,88},{1338658346450013305,89},
{1284864998686758793,89},{2677316692900026610,89},{2569729997373517586,89},{3935285017705158147,89},{5139459994747035172,89},{7870570035410316294,89},
{6451221667315421221,89},{10339329172858953,89},{11239807936434533,89},{13799994865331889,89},{19820847486702181,89},{24237905495460371,89},
{39641694973404362,89},{48475810990920742,89},{79283389946808724,89},{97500442820898803,89},{98049263659956122,89},{1070926677160010644,90},
{1096588281515368001,90},{2141853354320021288,90},{1204174977041877025,90},{2382688349728396693,90},{3346028331361898313,90},{4765376699456793386,90},
{6692056662723796626,90},{9530753398913586772u,90},{9633399816335016200u,90},{12384829586346874,90},{17873928530483789,90},{23534589646423849,90},
{35747857060967578,90},{47069179292847698,90},{72730783648205055,90},{94138358585695396,90},{92903289059425497,90},{1515682366258245235,91},
{1348675974286902268,91},{2864358340545147503,91},{3635030325851948799,91},{5728716681090295006,91},{7270060651703897598,91},{8978411014288843157,91},
{9582076607624301486u,91},{12350517151986245,91},{14546156729641011,91},{19074685622393059,91},{29092313459282022,91},{32523022563206687,91},
{58184626918564044,91},{65046045126413374,91},{90707649481770731,91},{1212545893006596188,92},{1266476454885150667,92},{1929287316434843005,92},
{2532952909770301334,92},{3362770163291336639,92},{5561710289118952039,92},{6445458104518541823,92},{9140202699924506594,92},{11664482197628959,92},
{10017627836888963,92},{22642608841617691,92},{14271692876898528,92},{31150738921636821,92},{36914301718516219,92},{62301477843273642,92},
{48166999081675081,92},{98941351331189927,92},{96333998163350162,92},{1051797148638068657,93},{1155486507326633991,93},{1487413408735048113,93},
{1431396964322221822,93},{2974826817470096226,93},{3910419312213968677,93},{8868464007997462387,93},{4902028251370667419,93},{9652694229777030461u,93},
{9804056502741334838u,93},{10456798498990975,93},{18333629657774100,93},{18827714463710138,93},{37188729949116153,93},{37655428927420276,93},
{74898930531800259,93},{75310857854840552,93},{98996122986453757,93},{1399455803701943497,94},{1519354569355326438,94},{2798911607403886994,94},
{2918810373057269935,94},{5717721980461156929,94},{5837620746114539870,94},{9996658773081718566u,94},{7724537489257745490,94},{10451321333464592,94},
{14666903726219280,94},{22510871891844107,94},{21467930624708201,94},{45021743783688214,94},{32984101887414231,94},{78005845671102445,94},
{65968203774828462,94},{1047625383569525033,95},{1167524149222907974,95},{2215149532792433007,95},{2335048298445815948,95},{4550197831238248955,95},
{4670096596891631896,95},{9100395662476497910,95},{9220294428129880851,95},{10255878277300730,95},{10994700629138077,95},{15601169134220489,95},
{21989401258276154,95},{37590570392496643,95},{43978802516552308,95},{75181140784993286,95},{87957605033104616,95},{99256424577541252,95},
{97301126564509669,95},{1226095886485356531,96},{1029938331901032732,96},{1820079132495299582,96},{1939977898148682523,96},{3640158264990599164,96},
{3760057030643982105,96},{7280316529981198328,96},{7400215295634581269,96},{9884581199480461957u,96},{9863428233119237639u,96},{18964698093303434,96},
{11498817823300197,96},{35574101615848163,96},{22997635646600394,96},{73903494360182153,96},{45995271293200788,96},{86479960329429922,96},
{89235251457915749,96},{1384124046604209901,97},{1504022812257592842,97},{2888146858861802743,97},{3008045624515185684,97},{5776293717723605486,97},
{5896192483376988427,97},{9409928220272504895u,97},{9649725751579270777u,97},{10692230312640805,97},{15331757097733596,97},{21384460625281610,97},
{26023987410374401,97},{42768921250563220,97},{52047974820748802,97},{79014080059426685,97},{72490317617726930,97},{1131278990414044509,98},
{1251177756067427450,98},{1881985644054500979,98},{2882927848908442939,98},{3763971288109001958,98},{5765855697816885878,98},{7527942576218003916,98},
{8148312444298357837,98},{11163289226792546,98},{11309075378598471,98},{15802816011885337,98},{14498063523545386,98},{31605632023770674,98},
{30300879535430723,98},{63211264047541348,98},{61906511559201397,98},{98548752994959080,98},{99912088506606023,98},{1181326100656741607,99},
{1000942204853941960,99},{1381514541627529999,99},{2182268305510683567,99},{2763029083255059998,99},{4364536611021367134,99},{5526058166510119996,99},
{9710210881728687483u,99},{13164153804844250,99},{11859401316504299,99},{26328307609688500,99},{23718802633008598,99},{77680170340725549,99},
{47437605266017196,99},{85508685270765255,99},{94875210532034392,99},{1003085194144842902,100},{1004252974791131439,100},{1145677919354361866,100},
{1993962591640688422,100},{2158502851309097073,100},{3987925183281376844,100},{6931338162339236489,100},{6146428034590473917,100},{8893613481711142919,100},
{9153215558185897546,100},{10531323043875400,100},{14492232077473149,100},{21062646087750800,100},{25023555121348549,100},{46086201209099349,100},
{50047110242697098,100},{96133311451796447,100},{66263958925711262,100},{1177365191623143858,101},{1072303581368342269,101},{3034578900740248699,101},
{2144607162736684538,101},{5179186063476933237,101},{4289214325473369076,101},{9468400388950302313u,101},{8578428650946738152,101},{10438019906719608,101},
{12385967468698069,101},{16850116870200640,101},{20811025903798389,101},{33700233740401280,101},{41622051807596778,101},{67400467480802560,101},
{83244103615193556,101},{1287985077306910461,102},{1055628755081447227,102},{2249668772991486127,102},{2437558891785229249,102},{3421475689185664971,102},
{4875117783570458498,102},{5765089521574022659,102},{9750235567140916996u,102},{10064807358096440,102},{10011314394035969,102},{13480093496160512,102},
{10700955781678005,102},{26960186992321024,102},{24181049277838517,102},{51141236270159541,102},{48362098555677034,102},{86153269148957717,102},
{96724197111354068,102},{1020492290652498079,103},{1004710870293182569,103},{1584162647033727445,103},{1518902370709260486,103},{2090463437270147607,103},
{4115666598215828255,103},{4180926874540295214,103},{8231333196431656510,103},{8361853749080590428,103},{9178674500580029875,103},{11339902339824911,103},
{14565743018097184,103},{22679804679649822,103},{17121529250684808,103},{59702000895501945,103},{34243058501369616,103},{90719218718599288,103},
{68486117002739232,103},{1267330117626981956,104},{1646266639286331302,104},{2534660235253963912,104},{3292533278572662604,104},{4370395135369969887,104},
{6585066557145325208,104},{8740790270739939774,104},{8041864935601981837,104},{11940400179100389,104},{10362258143168838,104},{23880800358200778,104},
{22302658322269227,104},{47761600716401556,104},{46183458680470005,104},{95523201432803112,104},{93945059396871561,104},{1315323878822878817,105},
{1017242959313958014,105},{2167513255230762717,105},{1468587920092804780,105},{3636101175323567497,105},{2937175840185609560,105},{9463294689150194013u,105},
{5874351680371219120,105},{10072286387398258,105},{10257465546357979,105},{20051525508119553,105},{18473383472188002,105},{40103051016239106,105},
{25157225308227853,105},{80206102032478212,105},{50314450616455706,105},{88839359596763261,105},{88003764945459004,105},{1033395836440466012,106},
{1029032500950106165,106},{2096776005413873811,106},{1174870336074243824,106},{4223536343360689409,106},{2349740672148487648,106},{8447072686721378818,106},
{6573277015509177057,106},{8734385021479294289,106},{9398962688593950592u,106},{11325403752036382,106},{15874101476234791,106},{22650807504072764,106},
{27199505228271173,106},{57091156644293679,106},{42609468820394195,106},{90603230016291056,106},{73429396004640239,106},{1060818069269149605,107},
{1447570936524766672,107},{3004069940446111175,107},{2508389005793916277,107},{6008139880892222350,107},{4134344209680020589,107},{9368978356061008805u,107},
{7386254617452229213,107},{12495089803959269,107},{11083993468337033,107},{15762737676028581,107},{17043787528157678,107},{32806525204186259,107},
{34087575056315356,107},{65613050408372518,107},{90473183532797917,107},{1201627976178444470,108},{1092699908781866639,108},{2403255952356888940,108},
{2579742712738451333,108},{4806511904713777880,108},{4982998665095340273,108},{9613023809427555760u,108},{9789510569809118153u,108},{10508491784019054,108},
{10556627380855851,108},{12097770199971226,108},{19119476588262861,108},{22298033420167205,108},{38238953176525722,108},{44596066840334410,108},
{78375413332826691,108},{89192133680668820,108},{87294626700893573,108},{1081540334389292456,109},{1017551187877781089,109},{1922604761885511152,109},
{2099091522267073545,109},{3845209523771022304,109},{4021696284152584697,109},{7690419047542044608,109},{8043392568305169394,109},{9733261762874092640u,109},
{8925826370212981359,109},{16434085458475437,109},{11727895923383536,109},{17838426736133764,109},{30970663937175627,109},{35676853472267528,109},
{61941327874351254,109},{71353706944535056,109},{90103309256210227,109},{1326299697050534050,110},{1679273217813658836,110},{2652599394101068100,110},
{3358546435627317672,110},{5305198788202136200,110},{4861332893059414115,110},{8754637598209051171,110},{7866905807923607001,110},{10915353488265513,110},
{13132237201041863,110},{16532718598898821,110},{26264474402083726,110},{33065437197797642,110},{51815039509472813,110},{60832886017963079,110},
{91606283674291938,110},{1061039757640427240,111},{1318882513321848963,111},{2122079515280854480,111},{1944533157223765646,111},{4244159030561708960,111},
{3889066314447531292,111},{6099919008756930189,111},{7778132628895062584,111},{10077444184016707,111},{10791353478711346,111},{16976095341454091,111},
{15916497665927650,111},{33952190682908182,111},{32892593007381741,111},{66844783690289923,111},{65785186014763482,111},{87300295373093069,111},
{99782441763733734,111},{1004431742804751304,112},{1106674561793763515,112},{2033306336252310063,112},{1323120904023954727,112},{4402255396532246605,112},
{2310599084020282975,112},{8804510793064493210,112},{5034640860414397185,112},{9140153517092119689,112},{9655839028454963135u,112},{13792795808268561,112},
{12733198132742120,112},{26525993941010681,112},{25466396265484240,112},{53051987882021362,112},{50932792530968480,112},{71442382293046110,112},
{86653983677491535,112},{1760902158612898642,113},{1006928172082879437,113},{3521804317225797284,113},{2096544882640525121,113},{7043608634451594568,113},
{4193089765281050242,113},{8551556607511632978,113},{8386179530562100484,113},{12305753857246578,113},{10186558506193696,113},{14288476458609222,113},
{17330796735498307,113},{28576952917218444,113},{34661593470996614,113},{88773179028544417,113},{69323186941993228,113},{1070145860785555540,114},
{1342570896110505916,114},{2330028218421295209,114},{1644160490722513598,114},{3974188709143808807,114},{5015170010642307041,114},{6221528389090337769,114},
{8303490992087334237,114},{10323031255883934,114},{10343888941422889,114},{20666920197306823,114},{13386209218311974,114},{26751560751084993,114},
{31619273194107529,114},{87556250917788783,114},{63238546388215058,114},{97229102747216990,114},{92423963360811319,114},{1133280118746075823,115},
{1002273208032354242,115},{1376607339377693549,115},{2077090719016866141,115},{2417588640876191783,115},{4154181438033732282,115},{4835177281752383566,115},
{8643988913946659879,115},{9334728525625571817u,115},{9748304707186852364u,115},{14586451180636444,115},{14594794254852026,115},{24317704529573725,115},
{29189588509704052,115},{53507293039277777,115},{58379177019408104,115},{97270818118294900,115},{72978142811367921,115},{1026365649558107253,116},
{1803718004733379562,116},{1851355676388697317,116},{3607436009466759124,116},{5324541270703778315,116},{5190290855552100189,116},{8087499717419426067,116},
{7818998887116069815,116},{13617914536561286,116},{10708133067228021,116},{19454163623658980,116},{24326047603789307,116},{38908327247317960,116},
{43780211227448287,116},{82688538474766247,116},{87560422454896574,116},{1064908254140755663,117},{1362424154695696774,117},{2129816508281511326,117},
{1563799777423213963,117},{4259633016563022652,117},{3693616285704725289,117},{8519266033126045304,117},{7953249302267747941,117},{10109490624930204,117},
{10325724254127307,117},{15563330898927184,117},{13235505723460572,117},{31126661797854368,117},{35998545777984695,117},{81524625887032941,117},
{71997091555969390,117},{95924044198226819,117},{96356511456621025,117},{1066727267555289532,118},{1095742337806874391,118},{1930259898968528006,118},
{1364243168110230643,118},{3860519797937056012,118},{2728486336220461286,118},{7721039595874112024,118},{5456972672440922572,118},{9361059647945834395u,118},
{9897972164171589854u,118},{10545157852929037,118},{14399418311193878,118},{21090315705858074,118},{28798836622387756,118},{42180631411716148,118},
{57597673244775512,118},{84361262823432296,118},{82542249408898427,118},{1132033461716594726,119},{1523888455560617299,119},{2655921917277212025,119},
{3047776911121234598,119},{5311843834554424050,119},{3933084216880305273,119},{9244928051434729323u,119},{7866168433760610546,119},{12247140014768650,119},
{10428126600234781,119},{17236055247593233,119},{22675266615003431,119},{34472110495186466,119},{52608758011950929,119},{61685996208428865,119},
{97959291241957791,119},{1062368766910884810,120},{1100100838451279113,120},{2124737533821769620,120},{2162469605362163923,120},{4249475067643539240,120},
{5703698828398446623,120},{7120190517612959703,120},{8649878421448655692,120},{11256488518680297,120},{10518185827151904,120},{12337199241685773,120},
{22495148161169185,120},{24674398483371546,120},{44990296322338370,120},{52248521104282437,120},{89980592644676740,120},{98697593933486184,120},
{95762212043564021,120},{1095461279831216161,121},{1170925422912004767,121},{1699790027057415696,121},{1454223760754907383,121},{3399580054114831392,121},
{3154013787812323079,121},{6799160108229662784,121},{6553593841927154471,121},{9802245609880408651u,121},{9669259955619192560u,121},{17416173701427479,121},
{17996118528935348,121},{34832347402854958,121},{35992237057870696,121},{69664694805709916,121},{71984474115741392,121},{96957759450962577,121},
{77783922390820082,121},{1458058528166935882,122},{1212492261864427569,122},{2916117056333871764,122},{3478878964607648497,122},{6394996020941520261,122},
{6957757929215296994,122},{8011652370094090353,122},{8574414278367867086,122},{13468983099135688,122},{11953994997138665,122},{26937966198271376,122},
{23103198786242877,122},{33092512920331351,122},{50041164984514253,122},{62350258428634203,122},{96247562557000007,122},{1053894440878793359,123},
{1307650954455808095,123},{2670550790031363451,123},{2052540000637839457,123},{5341101580062726902,123},{4105080001275678914,123},{8320657764790852350,123},
{8265408883671105089,123},{11220223478500469,123},{10652065963330413,123},{20783419476211401,123},{16948652064182902,123},{41566838952422802,123},
{37732071540394303,123},{83133677904845604,123},{59604360982225185,123},{99703952712740974,123},{95679405041829951,123},{1101369644684393737,124},
{1046120763564646476,124},{1664131552958170470,124},{2092241527129292952,124},{2844904250625471197,124},{4667841909549455647,124},{5689808501250942394,124},
{5206449645960072651,124},{9888172630296383904u,124},{9970908242962167214u,124},{11816729706355152,124},{11920872196445037,124},{31615421707036957,124},
{23841744392890074,124},{55457166099927031,124},{71421090688580337,124},{78986483022547450,124},{95366977571560296,124},{1331305242366536376,125},
{1577121450645260413,125},{2662610484733072752,125},{3875144403593536275,125},{7504472598908348513,125},{5571037177744869541,125},{9912993314096118897u,125},
{8012652137998953249,125},{15172441663970180,125},{10064812096124353,125},{23737601902800189,125},{15963924588653306,125},{55415509103891077,125},
{31927849177306612,125},{94950407611200756,125},{71462747684616291,125},{1304241553158690473,126},{1550057761437414510,126},{2854299314596104983,126},
{2179251629442203009,126},{5954414837470934003,126},{4358503258884406018,126},{6629462522624835977,126},{8717006517768812036,126},{11016450627120689,126},
{11349706595408321,126},{12637837283607592,126},{23820915894872097,126},{25275674567215184,126},{47641831789744194,126},{77615038342276271,126},
{68219974371642485,126},{99558153226615135,126},{98859692860749826,126},{1067596108309789131,127},{1240046209149931608,127},{1350095370307803948,127},
{2480092418299863216,127},{2700190740615607896,127},{4960184836599726432,127},{5081199165513910195,127},{9920369673199452864u,127},{9998925979970198786u,127},
{9997523331088390935u,127},{13868295415139588,127},{13643994874328497,127},{27736590830279176,127},{36458753178479689,127},{46302418230735657,127},
{72917506356959378,127},{83434073031648619,127},{99981195564805281,127},{1016239833102782039,128},{1856401008352968334,128},{2234276210021139179,128},
{3712802016705936668,128},{5947078226727075847,128},{4670348963857853459,128},{9138901383900131817,128},{9340697927715706918u,128},{11453517197409416,128},
{14224620406094130,128},{17404576336925215,128},{30283393498152799,128},{34848901033326241,128},{60566786996305598,128},{69697802066652482,128},
{95415688029631839,128},{1444761497919259647,129},{1310493571634760230,129},{2889522995838519294,129},{2419190599453945359,129},{3695919862323167747,129},
{4838381198907890718,129},{7391839724646335494,129},{9676762397815781436u,129},{10630135906699164,129},{11379696324875304,129},{18341526859645390,129},
{20550459754697999,129},{36683053719290780,129},{38891986614343389,129},{90248261821350481,129},{60901818845917857,129},{99987028322201960,129},
{99901594238534213,129},{1034731272046062657,130},{1236527815861637758,130},{1894993170800041267,130},{1518727253692382119,130},{3789986341600082534,130},
{3037454507384764238,130},{8910566978338717613,130},{6074909014769528476,130},{14673221487716312,130},{13063936927204615,130},{29346442975432624,130},
{27737158414920927,130},{75575040333634169,130},{55474316829841854,130},{97285048397938181,130},{90847910155891393,130},{1019489069229013228,131},
{1000153120898706628,131},{1817007270326160332,131},{1110300178978655267,131},{3634014540652320664,131},{2395069731249394581,131},{6029084271901715245,131},
{7093559708012557281,131},{9929217671581746418u,131},{8690272862178820335,131},{13669718662787086,131},{14471294242522155,131},{19299147924057246,131},
{28942588485044310,131},{36181302306826167,131},{57885176970088620,131},{72362604613652334,131},{86026189875397861,131},{1205816854380343049,132},
{1596713154166263054,132},{2411633708760686098,132},{1738054572435764067,132},{4823267417521372196,132},{3476109144871528134,132},{9646534835042744392u,132},
{6952218289743056268,132},{12060434102275389,132},{11577035394017724,132},{23637469496293113,132},{23154070788035448,132},{47274938992586226,132},
{30710961481294709,132},{94549877985172452,132},{77985900473880935,132},{1190799752735476060,133},{1299013215982394039,133},{2177095928889134095,133},
{1972592352307316070,133},{4354191857778268190,133},{4149688281196450165,133},{6844004826496138289,133},{8299376562392900330,133},{10151372873410965,133},
{10086434820638806,133},{15983899061382319,133},{15597180094776187,133},{31967798122764638,133},{31194360189552374,133},{47371618734237759,133},
{62388720379104748,133},{94743237468475518,133},{91649485735626462,133},{1034441232821108058,134},{1017387217328780319,134},{1741676743111307276,134},
{1659875312478580066,134},{3483353486222614552,134},{3319750624957160132,134},{5020526652752103803,134},{6639501249914320264,134},{8749284430872899985,134},
{9386641860442389926u,134},{15790539578079253,134},{12168368902536044,134},{31581079156158506,134},{27958908480615297,134},{59539987636773803,134},
{55917816961230594,134},{85423601308270419,134},{78179259957184001,134},{1014337739845817404,135},{1651695169415307345,135},{1749856886174579997,135},
{3303390338830614690,135},{3499713772349159994,135},{6606780677661229380,135},{6999427544698319988,135},{9844729871985662302u,135},{12209696508308080,135},
{10459129257137477,135},{19982456802088651,135},{20918258514274954,135},{31784770540904581,135},{50016660091822629,135},{55389398018536441,135},
{91853177120372537,135},{1089178818408457059,136},{1321356135532245876,136},{2410534953940702935,136},{2642712271064491752,136},{5053247225005194687,136},
{5285424542128983504,136},{9874317132886600557u,136},{5458427337450895811,136},{10419569637833904,136},{10377652703239047,136},{17621994054325465,136},
{15098578198765419,136},{27063845045378209,136},{38377299460803559,136},{57261001442909047,136},{76754598921607118,136},{98855446125054949,136},
{84934741984879839,136},{1011553599017782382,137},{1054372446375566367,137},{1928427963152562348,137},{1184556394339694689,137},{4089033243428913513,137},
{2369112788679389378,137},{8178066486857827026,137},{8410243803981615843,137},{9897986941607351161u,137},{9012096520469979878,137},{14097595243460372,137},
{12705524829442861,137},{22277738306733093,137},{31328501839073373,137},{38638024433278535,137},{62657003678146746,137},{71358596686369419,137},
{95726746455355237,137},{1496306907097292115,138},{1040516042321271278,138},{2072468315170985759,138},{2536822949418563393,138},{5529436763613147623,138},
{3689145765565950681,138},{8289873260683943036,138},{7834082395907922199,138},{10024751653907246,138},{11347910299591819,138},{15455209773311414,138},
{22695820599183638,138},{30910419546622828,138},{51309093378554927,138},{61820839093245656,138},{94054417285553057,138},{1197045525677833692,139},
{1018154687556048076,139},{2394091051355667384,139},{1384500133271176105,139},{3224791131318373047,139},{4332391237935313931,139},{6449582262636746094,139},
{8664782475870627862,139},{10511745714690729,139},{10541155095005071,139},{17098129562799252,139},{16443902585035551,139},{23015581742986903,139},
{32887805170071102,139},{46031163485973806,139},{76956287722753805,139},{92062326971947612,139},{86828511149838004,139},{1048794593497471121,140},
{1087998268910450963,140},{1563390971392961721,140},{2175996537820901926,140},{2670991078009902605,140},{4351993075641803852,140},{8091380584855667499,140},
{5954587722447745415,140},{9159777016059628541,140},{8860800852935527072,140},{12489131338139003,140},{15391257544550761,140},{33542032147834803,140},
{30782515089101522,140},{67084064295669606,140},{41963192471713123,140},{94964453178359370,140},{83926384943426246,140},{1068396431203961042,141},
{1190917544489549083,141},{2136792862407922084,141},{2381835088979098166,141},{4273585724815844168,141},{7022984153651706457,141},{8547171449631688336,141},
{9527340355916392664u,141},{13188638222848358,141},{10105392388653984,141},{18992890635671874,141},{26338765965592577,141},{37985781271343748,141},
{45331656601264451,141},{95573400249177417,141},{71061475496038981,141},{1110546158844929993,142},{1148767816848580132,142},{1769229522551157961,142},
{2749398428835862289,142},{3086596249963613897,142},{5046934062533022553,142},{5721329704788525769,142},{8286416944511237006,142},{10056050825603421,142},
{10527804290216203,142},{11273944967239515,142},{21055608580432406,142},{22547889934479030,142},{43093234570194515,142},{83317437872608199,142},
{81353403053948793,142},{90191559737916120,142},{96988660643015763,142},{1008027392325584582,143},{1070541465312444733,143},{1202701753401505519,143},
{1327729899375225821,143},{2315030947775270633,143},{2655459798750451642,143},{4539689336522800861,143},{5220547038473162879,143},{9079378673045601722,143},
{9085505691530219683,143},{17056294538253521,143},{15092259719594115,143},{34112589076507042,143},{24111415693385727,143},{42149727640968951,143},
{48222831386771454,143},{84299455281937902,143},{96445662773542908,143},{1015159534440925066,144},{1786389795419027489,144},{1813424927215273160,144},
{1801477433894343040,144},{3632976872915164281,144},{3602954867788686080,144},{7265953745830328562,144},{7235931740703850361,144},{10001173383121315,144},
{12073807775675292,144},{22074981158796607,144},{14074042452299555,144},{44149962317593214,144},{28148084904599110,144},{70225412829638347,144},
{56296169809198220,144},{1030247172916240617,145},{1009783162446506512,145},{1482109968054942642,145},{1461645957585208537,145},{2964219936109885284,145},
{5546485625639074843,145},{5928439872219770568,145},{7643128995082652239,145},{10372260432074282,145},{10073573099051029,145},{20445833531125311,145},
{11259233961839644,145},{31705067492964955,145},{22518467923679288,145},{45335623180381829,145},{45036935847358576,145},{90671246360763658,145},
{90073871694717152,145},{1084470708332884860,146},{1080377906238938039,146},{1301364849999461832,146},{1586464236794284307,146},{2602729699998923664,146},
{4044597842348823323,146},{5205459399997847328,146},{8382480675680362763,146},{9547435035423333589u,146},{9824348818030262422u,146},{12682026997185982,146},
{16177454425086297,146},{25364053994371964,146},{28859481422272279,146},{50728107988743928,146},{39644451038996477,146},{83381704171939775,146},
{79288902077992954,146},{1735153133332615776,147},{1213788632914041679,147},{3470306266665231552,147},{2427577265828083358,147},{6940612533330463104,147},
{5262479277356811823,147},{7983341534167611298,147},{7576016788466966191,147},{13180913406487640,147},{10486282283700945,147},{16676340834387955,147},
{19472682776708207,147},{54223535416644243,147},{38945365553416414,147},{66705363337551820,147},{93168900970060657,147},{1133960804611491386,148},
{1225192608385834578,148},{2857709962472314263,148},{1860596863522337665,148},{5715419924944628526,148},{2948941766246657455,148},{9843938397689948963u,148},
{5897883532493314910,148},{10544730725190112,148},{10326123022678221,148},{13341072667510364,148},{20870853747868333,148},{38086120806813627,148},
{30337732023943767,148},{87576217085420153,148},{49271488576094635,148},{95324605868290013,148},{98542977152189270,148},{1151563491109580173,149},
{1053139529728142216,149},{2303126982219160346,149},{1179576706498662982,149},{4606253964438320692,149},{2359153412997325964,149},{8664361691191285981,149},
{8973262475510493131,149},{9675859105355452109u,149},{9436613651989303856u,149},{12953653228366871,149},{18158917673863882,149},{25907306456733742,149},
{19708595430437854,149},{51814612913467484,149},{57019877358964495,149},{86026539328846181,149},{96437068219840203,149},{1876419610257946148,150},
{1019372588253383595,150},{3760714394605109763,150},{1915184862779084330,150},{4440296120107365493,150},{4687416747562731213,150},{8880592240214730986,150},
{9374833495125462426u,150},{12842406993211852,150},{11403975471792899,150},{24246382465004751,150},{22807950943585798,150},{47054333408590549,150},
{45615901887171596,150},{94108666817181098,150},{60341725342422477,150},{1474848590642976853,151},{1013194572566999452,151},{2932860292629634601,151},
{1532147890223267464,151},{4366159931870755777,151},{4563856433835048353,151},{8732319863741511554,151},{9127712867670096706,151},{11424670811704644,151},
{10410528890994022,151},{19972478580571382,151},{17095615537733476,151},{39944957161142764,151},{28013215389082809,151},{79889914322285528,151},
{49848415091781475,151},{97999671780729626,151},{99696830183562950,151},{1094065516266136810,152},{1189546389517019277,152},{1588306771176868250,152},
{1983699775105453402,152},{4069615178924316913,152},{3074397913640326391,152},{8139230357848633826,152},{6251011455994062891,152},{9747741395413085002u,152},
{9946632194152873057u,152},{14742379727180277,152},{16147698704740438,152},{35662775140744697,152},{19939366036712590,152},{71325550281489394,152},
{43246109804689001,152},{89859597340641823,152},{86492219609378002,152},{1270645416941494600,153},{1923717348969912865,153},{2541290833882989200,153},
{3194362765911407465,153},{6490941160536225039,153},{4980366039052568291,153},{7757306864845103958,153},{9960732078105136582u,153},{14938585602550643,153},
{11571207871286822,153},{22914332017235679,153},{26509793473837465,153},{35270363390003965,153},{53019586947674930,153},{70540726780007930,153},
{88289950337678895,153},{1016516333553195680,154},{1277745106364562986,154},{2033032667106391360,154},{2555490212729125972,154},{3441392159876637999,154},
{5110980425458251944,154},{6882784319753275998,154},{6258111145417131277,154},{10512683899399800,154},{10603917389534986,154},{14108145356001586,154},
{17657990067535779,154},{31766135423537365,154},{35315980135071558,154},{63532270847074730,154},{67082115558608923,154},{98665784001875916,154},
{97305543053586187,154},{1147130719958879333,155},{1190292851855380190,155},{2294261439917758666,155},{1669588265581613945,155},{4588522879835517332,155},
{3296014399266727033,155},{9177045759671034664,155},{7884537279102244365,155},{9908446525585313822u,155},{9910802001911549233u,155},{12706454169414946,155},
{16256298880949139,155},{25412908338829892,155},{32512597761898278,155},{50825816677659784,155},{65025195523796556,155},{88016249867273337,155},
{86888259151092255,155},{1818144299175606590,156},{1576907455820448873,156},{3395051754996055463,156},{3153814911640897746,156},{6548866666636953209,156},
{6307629823281795492,156},{8651409941064218373,156},{8168936254353902939,156},{10277962407150065,156},{12892240033141203,156},{20555924814300130,156},
{17377651830218451,156},{61103779084809849,156},{34755303660436902,156},{72688880304955483,156},{69510607320873804,156},{1454515439340485272,157},
{1213278595985327555,157},{2019766200239032935,157},{2426557191970655110,157},{4446323392209688045,157},{4853114383941310220,157},{9299437776150998265u,157},
{9706228767882620440u,157},{11400642909801731,157},{11585101220145634,157},{16444739851440104,157},{23170202440291268,157},{32889479702880208,157},
{46340404880582536,157},{49518677864664215,157},{92680809761165072,157},{99037355729328430,157},{99605262137762730,157},{1203346465091972997,158},
{1051981075134586479,158},{1859887555230199653,158},{1941245753576524088,158},{3719775110460399306,158},{3801133308806723741,158},{7439550220920798612,158},
{7520908419267123047,158},{19779075825443971,158},{10613173493886740,158},{19807471145865686,158},{20516909066819583,158},{40324380212685269,158},
{41033818133639166,158},{80648760425370538,158},{82067636267278332,158},{1002411285693163177,159},{1011861141228937558,159},{1956007652378531693,159},
{1021702407096942628,159},{3895743665087798499,159},{2027133174524620369,159},{7791487330175596998,159},{4084181556985486637,159},{9890528847510767421u,159},
{8168363113970973274,159},{15539485491973618,159},{10618852557971083,159},{30414965575668083,159},{16981077590218784,159},{47396043165886867,159},
{33962155180437568,159},{94792086331773734,159},{67924310360875136,159},{1610366712976767038,160},{1025113299163687881,160},{3188715760895461077,160},
{1659707246265018474,160},{5889807945993432319,160},{6019981063347551415,160},{9957192249029197294u,160},{6735933208795206443,160},{11030885556740998,160},
{10046758969940491,160},{21077644526681489,160},{20093517939880982,160},{41171162466562471,160},{40187035879761964,160},{98613964602389829,160},
{64102432090259041,160},{1073823095315391187,161},{1203996212669510283,161},{2147646190630782374,161},{2407992425339020566,161},{3286555844623233109,161},
{4815984850678041132,161},{8102540695301274241,161},{9631969701356082264u,161},{10070522021176936,161},{10032501139198624,161},{13214137052772011,161},
{19329142285757763,161},{26428274105544022,161},{22386644902250639,161},{69128187880352931,161},{44773289804501278,161},{89441456752911201,161},
{89546579609002556,161},{1008568340068585471,162},{1008904733208077807,162},{1106345350082702690,162},{2050121475471284407,162},{3546902079331471301,162},
{3351684452442729199,162},{7093804158662942602,162},{5173939898830650375,162},{9599321299161461135u,162},{8818450791606492727,162},{12187961323534962,162},
{12208985894753233,162},{24396947218288195,162},{24417971789506466,162},{48793894436576390,162},{48814919007794661,162},{65065534105841277,162},
{97629838015589322,162},{1574934933243582202,163},{1034787979766130075,163},{3299581566187132327,163},{2069575959532260150,163},{3989440219364552377,163},
{4139151919064520300,163},{8128592138429072677,163},{8278303838129040600,163},{12865659131904985,163},{10011073741934530,163},{19517557774630556,163},
{13046746135117489,163},{45547976331210721,163},{26093492270234978,163},{91095952662421442,163},{58615747037546481,163},{1230005606654872177,164},
{1127253783212839906,164},{2609722913009712277,164},{1655660767625808120,164},{3161609835551648317,164},{3311321535251616240,164},{6323219671103296634,164},
{8680479060971008717,164},{10328069137758982,164},{10051496056820685,164},{11655870779610829,164},{19538582345848827,164},{29908700626044351,164},
{27337195627213741,164},{42934422189943569,164},{54674391254427482,164},{97608813444371051,164},{87322793449048611,164},{1058020478685742458,165},
{1007441072848388716,165},{1616326452434227405,165},{1324528614100646496,165},{2940855066534873901,165},{2649057228201292992,165},{5589912294736166893,165},
{5298114456402585984,165},{8784437394272847018,165},{9720835397804429241u,165},{14311474063314523,165},{13282872063782279,165},{28622948126629046,165},
{26565744127564558,165},{57245896253258092,165},{41391519190645203,165},{98637415443903295,165},{82783038381290406,165},{1293061161947381924,166},
{1001263323613801015,166},{2294324485561182939,166},{2002526647227602030,166},{4588648971122365878,166},{5826400789829573595,166},{7355950446870362221,166},
{9831454084284777655u,166},{10044718023361234,166},{13193918133645386,166},{19727483088780659,166},{19606832102800056,166},{47321829215877461,166},
{31346801167283969,166},{94643658431754922,166},{55068041268213001,166},{1020336836483328723,167},{1165280157965914719,167},{2694829815006703345,167},
{2330560315931829438,167},{5025390130938532783,167},{4661120631863658876,167},{5464042486123108605,167},{9322241263727317752u,167},{10140011364666869,167},
{10603394901308550,167},{12635241255698070,167},{18832210897566502,167},{25270482511396140,167},{42432800012514931,167},{50540965022792280,167},
{77240038958674925,167},{85830807912874686,167},{99170734677175643,167},{1077931926002681338,168},{1048178783558800572,168},{2155863852005362676,168},
{1427324853855614862,168},{4311727704010725352,168},{2854649707711229724,168},{8623455408021450704,168},{5709299415422459448,168},{8742467977796973768,168},
{8957971764652443845,168},{10108193004558456,168},{15448007791734985,168},{20216386009116912,168},{30896015583469970,168},{40432772018233824,168},
{61792031166939940,168},{80865544036467648,168},{93830919889999114,168},{1366372211018192387,169},{1275666425736889146,169},{2732744422036384774,169},
{1791594352930488769,169},{4524338774966873543,169},{3583188705860977538,169},{8107527480827851081,169},{7166377411721955076,169},{10912048283727045,169},
{12358406233387988,169},{16555347880975313,169},{24716812466775976,169},{41272160347751289,169},{49433624933551952,169},{67667749473562195,169},
{98867249867103904,169},{1122561639668502487,170},{1324428540006827126,170},{1492203224052288170,170},{2648857080013654252,170},{2796176434283397139,170},
{5485944173848487705,170},{5835130428456555231,170},{9842508264769900204u,170},{10072659954209580,170},{10175996576642579,170},{13533549894712439,170},
{20351993153285158,170},{39257628356909373,170},{33885543047997597,170},{78515256713818746,170},{60952642837422475,170},{94631512640554074,170},
{93598501180625127,170},{1037723813578029000,171},{1097188834769697541,171},{1317610096748254407,171},{2194377669539395082,171},{2635220193496508814,171},
{4264907821572366293,171},{7653048070353591911,171},{6147207959784158303,171},{9664113201194894581u,171},{9282735698429449390u,171},{15124508162899372,171},
{12190528567484495,171},{27315036730383867,171},{24381057134968990,171},{61448516719340453,171},{48762114269937980,171},{90705785281303241,171},
{97524228539875960,171},{1732699622179466007,172},{1103627084401173074,172},{3465399244358932014,172},{1856547139685889878,172},{6900128015068875107,172},
{3713094279371779756,172},{9911808236207742323u,172},{7426188558743559512,172},{13909510722880013,172},{10132616481084782,172},{25943095339450725,172},
{19504845707975192,172},{51886190678901450,172},{45447941047425917,172},{97334131726327367,172},{90895882094851834,172},{1398427887203168374,173},
{1017050384437723183,173},{2836326706580639081,173},{1472969522289116334,173},{3327316547343677859,173},{3607882170636842875,173},{6654633094687355718,173},
{7215764341273685750,173},{10377238135780290,173},{11137625389974662,173},{20754476271560580,173},{14316226640085047,173},{41508952543121160,173},
{28632453280170094,173},{83017905086242320,173},{57264906560340188,173},{95894404349193386,173},{98094518980521739,173},{1022304433314989626,174},
{1002142057420533591,174},{1743880867442358201,174},{1443152868254737150,174},{4349620980658667485,174},{2886305736509474300,174},{8959645208716043951,174},
{5772611473018948600,174},{9561101207091286053u,174},{9139398952536928792,174},{16603581017248464,174},{11349532139982021,174},{33207162034496928,174},
{20498949648635689,174},{66414324068993856,174},{38797784665943025,174},{97757945226342085,174},{77595569331886050,174},{1447185343433628357,175},
{1154522294603789720,175},{2601707638037418077,175},{2309044589207579440,175},{5203415276074836154,175},{4910752227244997517,175},{7316576220745965925,175},
{9821504454489995034u,175},{11792032112079812,175},{11181245262892194,175},{19551589045268417,175},{15519113866377210,175},{39103178090536834,175},
{35070702911645627,175},{74173881002182461,175},{70141405823291254,175},{1216280884512870413,176},{1307538262899902143,176},{2432561769025740826,176},
{1847235671366063552,176},{4865123538051481652,176},{3694471342732127104,176},{7005022258247383841,176},{7388942685464254208,176},{10240120725442091,176},
{10557986281870238,176},{16447766271992975,176},{12415291093101768,176},{32895532543985950,176},{28863057365094743,176},{65791065087971900,176},
{57726114730189486,176},{91475466888785173,176},{99322328744814144,176},{1134149243964541856,177},{1042252427586173025,177},{1792481244333844514,177},
{1554572622536224915,177},{4590711964899049361,177},{3109145245072449830,177},{9181423929798098722,177},{6456199111942519259,177},{9365217562554836384u,177},
{9711356162434219857u,177},{13158213017594380,177},{14219000498515139,177},{35442163873891933,177},{19312263158327105,177},{70884327747783866,177},
{38624526316654210,177},{96139966302051867,177},{77249052633308420,177},{1481566719826599531,178},{1243658098028979932,178},{3413014954505267115,178},
{2037434681205891811,178},{6800094180267363085,178},{4074869362411783622,178},{9975200512975010601u,178},{8149738724823567244,178},{10526570414075504,178},
{14048977951289353,178},{21053140828151008,178},{15449810526661684,178},{42106281656302016,178},{45628689193515865,178},{84212563312604032,178},
{87734970849817881,178},{1360018836053472617,179},{1354831690304838388,179},{2720037672106945234,179},{2714850526358311005,179},{5440075344213890468,179},
{5434888198465256239,179},{7255162840868065367,179},{7244788549370796909,179},{10790476050123553,179},{10983407164496642,179},{14729068140192497,179},
{18251475677406346,179},{24270990531750765,179},{41690097103446921,179},{88567339955528071,179},{83380194206893842,179},{97083962127003060,179},
{99327493681542707,179},{1091127356291958631,180},{1085940210543324402,180},{1453107426473066765,180},{2171880421086648804,180},{2906214852946133530,180},
{3624987847559715569,180},{6531202700505849099,180},{7249975695119431138,180},{9593031925911009499u,180},{9938330426622927050u,180},{14895541961334535,180},
{13563751392198231,180},{19416792425400612,180},{32314648533030691,180},{69816442814695611,180},{64629297066061382,180},{77667169701602448,180},
{98135719640317390,180},{1162485941178453412,181},{1881258935792035451,181},{3339553508013736445,181},{2747936245927241281,181},{6679107016027472890,181},
{5072908128284148105,181},{9722851892997961753u,181},{7779347208222315554,181},{11916433569067628,181},{12897856107630079,181},{18645721389501027,181},
{24814289676697707,181},{54815725102029643,181},{49628579353395414,181},{64208594060735650,181},{99257158706790828,181},{1335821403205494578,182},
{1014581625656829621,182},{2671642806410989156,182},{2029163251313659242,182},{5343285612821978312,182},{4058326502627318484,182},{7051209086586972597,182},
{8116653005254636968,182},{11608005154707794,182},{11355714035830909,182},{22963719190538703,182},{17776573441904474,182},{45927438381077406,182},
{40740292632443177,182},{91854876762154812,182},{56049438759468979,182},{98051186986296581,182},{96032858035281501,182},{1162889606968656428,183},
{1024754084258996571,183},{2350403028862324199,183},{2049508168517993142,183},{4700806057724648398,183},{3033572418368321913,183},{9401612115449296796u,183},
{6067144836736643826,183},{9806411316737868166u,183},{9865266313428299053u,183},{15359604350801179,183},{10071542154616196,183},{35805438002685833,183},
{20143084309232392,183},{71610876005371666,183},{40286168618464784,183},{92359458999908582,183},{86465898118419075,183},{1000340183613795891,184},
{1398890646538929668,184},{2000680367227591782,184},{3733017741637786747,184},{7067485020350439717,184},{4399911197380317341,184},{8002721468910367128,184},
{8799822394760634682,184},{11593370252586661,184},{10786038672180629,184},{29290215666473492,184},{17293179623683815,184},{58790345612757647,184},
{34586359247367630,184},{93376704860125277,184},{69172718494735260,184},{1333786911485061188,185},{1039402424646116979,185},{2667573822970122376,185},
{2373189336131178167,185},{5040763159101300543,185},{4746378672262356334,185},{7015402032307344933,185},{6426633058629456515,185},{10776341010529643,185},
{10172458602166950,185},{18507409548176525,185},{13834543698947052,185},{48617887010590697,185},{27669087397894104,185},{95818094924645345,185},
{55338174795788208,185},{98233624558096117,185},{99912938796581421,185},{1184783323923626634,186},{1091485412689211763,186},{2369566647847253268,186},
{1285326611725891303,186},{4645835384460091665,186},{2570653223451782606,186},{9291670768920183330u,186},{5141306446903565212,186},{19163618984929069,186},
{16275933763467120,186},{28929179243009341,186},{32551867526934240,186},{61481046769943581,186},{65103735053868480,186},{97603275552412869,186},
{81747170348567075,186},{1002378231243338225,187},{1002134132381737860,187},{1858334153784036666,187},{1641486146559764273,187},{3716668307568073332,187},
{3499820300343800939,187},{7433336615136146664,187},{7216488607911874271,187},{8457072281746623327,187},{9662321056889755896u,187},{12432744560803336,187},
{13020747010773696,187},{22418805737622493,187},{26041494021547392,187},{48460299759169885,187},{52082988043094784,187},{96920599518339770,187},
{81159167898596715,187},{1573406525916938290,188},{1356558518692665897,188},{3146813051833876580,188},{2713117037385331794,188},{6293626103667753160,188},
{5426234074770663588,188},{9657287162725902133u,188},{7922503104931722989,188},{12373944315806300,188},{10162461911810265,188},{19384119903667954,188},
{16231833579719343,188},{38768239807335908,188},{35615953483387297,188},{77536479614671816,188},{71231906966774594,188},{1258725220733550632,189},
{1216362398121466906,189},{2517450441467101264,189},{2062573015712514615,189},{5034900882934202528,189},{2929965044609604187,189},{7964865927543806715,189},
{5859930089219208374,189},{10030832397537081,189},{10011577369353364,189},{18029124982093252,189},{11724552334196030,189},{36058249964186504,189},
{23449104668392060,189},{50935088622331145,189},{68079620642825983,189},{80688765938620427,189},{93796418673568240,189},{1026304253498765097,190},
{1001698059675005322,190},{1592973185508761343,190},{1650058412570011692,190},{3185946371017522686,190},{3243031598078773035,190},{6371892742035045372,190},
{6428977969096295721,190},{9946609358068823643u,190},{8262922797997971461,190},{10187017724466229,190},{16028287745429397,190},{20374035448932458,190},
{18759283734713648,190},{40748070897864916,190},{58699978775469159,190},{81496141795729832,190},{96218546244896455,190},{1240127412170258865,191},
{1297212639231509214,191},{2537340051401768079,191},{2594425278463018428,191},{3402148477556107555,191},{5188850556926036856,191},{6804296955112215110,191},
{8705169488604645109,191},{10011460628156622,191},{12461752049260289,191},{20535510620354339,191},{19243709248979291,191},{41071021240708678,191},
{38487418497958582,191},{59668829804000445,191},{76974836995917164,191},{1303774163961192673,192},{1106272383858707790,192},{1360859391022443022,192},
{2410046547819900463,192},{2721718782044886044,192},{3770905938842343485,192},{5443437564089772088,192},{6492624720887229529,192},{10231893098192165,192},
{10067788327707526,192},{11933765960800089,192},{13328085204983356,192},{23867531921600178,192},{33217695139650171,192},{47735063843200356,192},
{72996915008983801,192},{95470127686400712,192},{88908602956717253,192},{1018348028654940928,193},{1015854626405463767,193},{1377525656218439859,193},
{1508362375536937394,193},{3804238469234337159,193},{3016724751073874788,193},{6820963220308211947,193},{6033449502147749576,193},{8657664095266131759,193},
{9704357849814112039u,193},{15911687947733452,193},{14402533451206682,193},{31823375895466904,193},{25261851165783445,193},{63646751790933808,193},
{46980486594936971,193},{70208276520617267,193},{93960973189873942,193},{1627362124048323756,194},{1049187156797457441,194},{2885888031755377253,194},
{2098374313594914882,194},{5771776063510754506,194},{4984262345350292135,194},{8762333470720929787,194},{9968524690700584270u,194},{11312064063534794,194},
{10104740466313378,194},{22624128127069588,194},{15458941598775421,194},{47584148393547679,194},{30917883197550842,194},{95168296787095358,194},
{61835766395101684,194},{1228122455970404953,195},{1321826213429827746,195},{2549948669400232699,195},{1993704938140116854,195},{4543653607540349553,195},
{3987409876280233708,195},{8531063483820583261,195},{7974819752560467416,195},{10015510128604968,195},{10451186534472937,195},{20466696663077905,195},
{13301510134783738,195},{22366912396618439,195},{29967775330780575,195},{70901168656936385,195},{59935550661561150,195},{89467649586473756,195},
{97939865332371830,195},{1018783705060808897,196},{1059852496142430562,196},{1147577440105432442,196},{2078636201203239459,196},{2183906133958841715,196},
{4157272402406478918,196},{4338701103828903591,196},{8314544804812957836,196},{8677402207657807182,196},{9760778506089259033u,196},{14180233731387277,196},
{11987110132312230,196},{28360467462774554,196},{26167343863699507,196},{56720934925549108,196},{54527811326474061,196},{67986831571326457,196},
{95896881058497840,196},{1001238716268208521,197},{1573909963960973032,197},{2002477432536417042,197},{3020143665237274229,197},{4004954865072834084,197},
{6357606052797969299,197},{7692591007822247327,197},{9155252225531197190,197},{11782811704924831,197},{13417199124024023,197},{23565623409849662,197},
{19179376211699568,197},{47131246819699324,197},{38358752423399136,197},{68503746630473939,197},{76717504846798272,197},{1334984955024278028,198},
{1017666232700857187,198},{2250510177577397747,198},{1831050445106239438,198},{3140500147593583099,198},{3662100890212478876,198},{6281000295187166198,198},
{6802601037806061975,198},{10085356233903815,198},{10700302402556520,198},{17209747084614863,198},{16986252612624521,198},{25758747008924709,198},
{42633252385554059,198},{77052746554783785,198},{59731252234173751,198},{86607471603050170,198},{93927251931413135,198},{1008882496306821629,199},
{1100127814574350660,199},{1383127547966801576,199},{1360520207561212395,199},{3287855838552498929,199},{2721040415122424790,199},{6008896253674923719,199},
{5442080830244849580,199},{9364574113444190191u,199},{9750530813629550882u,199},{15410549310956757,199},{10124703225977610,199},{30821098621913514,199},
{18785450386282627,199},{61642197243827028,199},{37570900772565254,199},{97749141950719689,199},{75141801545130508,199},{1750508801840587538,200},
{1088416166048969916,200},{3501017603681175076,200},{2176832332097939832,200},{3596294816042718559,200},{4353664664195879664,200},{7949959480238598223,200},
{8707329328391759328,200},{12035648235630887,200},{13499604301303480,200},{24071296471261774,200},{20135410816412975,200},{33407023846631965,200},
{55006390728717533,200},{73677845479457915,200},{80541643265651900,200},{1324185271583235244,201},{1099398242506880292,201},{2799844512797102709,201},
{1441426636860599479,201},{5599689025594205418,201},{2882853273721198958,201},{9987586294143353068u,201},{5907484815594656619,201},{10434897407307600,201},
{10799683441042784,201},{14735569095891583,201},{16108328653130380,201},{29471138191783166,201},{32216657306260760,201},{58942276383566332,201},
{64433314612521520,201},{89786174132588295,201},{94634024871775054,201},{1029053423340461751,202},{1091582151488389343,202},{2058106846680923502,202},
{1363265726675689989,202},{4330216391140406817,202},{2726531453351379978,202},{6450851965969257911,202},{7662643723014315679,202},{9836112324512720847u,202},
{9124550392651083815,202},{15211715712040065,202},{12886662922504304,202},{17957234826517659,202},{25773325845008608,202},{35914469653035318,202},
{43730560671526267,202},{71828939306070636,202},{79645030324561585,202},{1005011502229128066,203},{1618129823714287061,203},{3022256949650014309,203},
{2623141325943415127,203},{6044513899300028618,203},{4234048706695072077,203},{7455863468198385977,203},{8468097413390144154,203},{12169372569632052,203},
{11872548541701633,203},{24338745139264104,203},{15929006064912317,203},{55899933241158319,203},{31858012129824634,203},{87757945370982953,203},
{63716024259649268,203},{1166102240304293761,204},{1411349568898357359,204},{1810465192604956541,204},{2822699137796714718,204},{4633164330401671259,204},
{5645398275593429436,204},{6167137563597060417,204},{7179371508788818594,204},{10210416500394312,204},{10230149758854323,204},{13218123296618524,204},
{20440566259248635,204},{24041921111333685,204},{40881132518497270,204},{48083842222667370,204},{74539822074364429,204},{96167684445334740,204},
{93812825480351399,204},{1002906602562389270,205},{1152788737246242981,205},{2055712521199020139,205},{2043214668872818625,205},{4111425042398040278,205},
{3074195392553879073,205},{5136156839915999969,205},{9235084029987838733u,205},{9310071143945047817u,205},{9972365224003163602u,205},{15865694607634231,205},
{16352453007398908,205},{19233536889066948,205},{32704906014797816,205},{38467073778133896,205},{71658738192696389,205},{76934147556267792,205},
{99574993243687479,205},{1037229649844161205,206},{1634571735098254900,206},{2671801384942416105,206},{3269143470196509800,206},{5343602769884832210,206},
{5940944855138925905,206},{9492521369261477030u,206},{7965412745522442259,206},{10192985220867082,206},{11832177173298975,206},{20385970441734164,206},
{23664354346597950,206},{34523014720367571,206},{53577634856296657,206},{62797103277634385,206},{94657417386391800,206},{1068720553976966442,207},
{1188188971027785181,207},{2137441107953932884,207},{2256909525004751623,207},{4274882215907865768,207},{4513819050009503246,207},{8549764431815731536,207},
{9027638100019006492,207},{11528021507615253,207},{10019856702567447,207},{12559420655526877,207},{18931483477278360,207},{25118841311053754,207},
{44111893117657477,207},{50237682622107508,207},{81728586754912745,207},{93980165763812807,207},{94965259033018615,207},{1017036067468397621,208},
{1046125910462883136,208},{1614378152722491316,208},{2092251820925766272,208},{4394350632958684507,208},{3018909314337830669,208},{8788701265917369014,208},
{6247665619782813301,208},{9511729858368034806u,208},{9954295593431070889u,208},{17546247920142410,208},{16345717350982549,208},{23795174083243167,208},
{32691434701965098,208},{47590348166486334,208},{65382869403930196,208},{79081252299291571,208},{85576451779693780,208},{1841679049626334588,209},
{1165594327513701875,209},{2074797915129074963,209},{3007273377140036463,209},{4149595830258149926,209},{6014546754280072926,209},{8299191660516299852,209},
{9488057862425590139u,209},{14036998336113928,209},{14375613776866481,209},{28073996672227856,209},{17115290355938756,209},{56147993344455712,209},
{34230580711877512,209},{94842080892220115,209},{62643192824857921,209},{1235569999319209613,210},{1305465646815346100,210},{2914025830938940313,210},
{1864950924021923000,210},{5828051661877880626,210},{4032996385352094113,210},{8369087308012436339,210},{8065992770704188226,210},{10958706316289100,210},
{10878682006917849,210},{18968416178444023,210},{16019419724309846,210},{43754800955785149,210},{26220870849722589,210},{87429577602199047,210},
{52441741699445178,210},{94815620049558359,210},{99841951908501543,210},{1049074906917017313,211},{1044372517452276880,211},{2391839572212801873,211},
{1491960739217538400,211},{4783679144425603746,211},{3287016015743324913,211},{8070695160168928659,211},{6574032031486649826,211},{9908071941877379069u,211},
{9832833710441532141u,211},{12831540641322127,211},{15142723219006718,211},{25663081282644254,211},{20960691817903821,211},{51326162565288508,211},
{46623773100548075,211},{97949935665836583,211},{93247546201096150,211},{1735376846957084977,212},{1193568591374030720,212},{2451518001781503409,212},
{3406372874880727985,212},{4903036003563006818,212},{6812745749761455970,212},{8786836314993347091,212},{7767600622860680546,212},{10297242236806202,212},
{13054656468153461,212},{15892095008871971,212},{18649509240219230,212},{56921015337354277,212},{37299018480438460,212},{79300426425617353,212},
{74598036960876920,212},{1083616511166108514,213},{1362549149952291194,213},{2928945438331115697,213},{2725098299904582388,213},{5857890876662231394,213},
{5654043738235698085,213},{6222766428210468404,213},{9881157507485663007u,213},{11999705361237308,213},{10059608489540764,213},{19621996856915817,213},
{14919607392175384,213},{44596334376935335,213},{29839214784350768,213},{74435549161286103,213},{59678429568701536,213},{97947496484988268,213},
{97794765408790711,213},{1111509775044726782,214},{1130808747647139617,214},{2465464633720812543,214},{2261617495294279234,214},{4727082129015091777,214},
{4523234990588558468,214},{9454164258030183554u,214},{9046469981177116936,214},{9954743542100100637u,214},{9939054425292901512u,214},{17838533750774134,214},
{10054730127844134,214},{35677067501548268,214},{20109460255688268,214},{71354135003096536,214},{48813211787581969,214},{78327450972751103,214},
{97626423575163938,214},{1019235692132666545,215},{1646216285494196740,215},{2665451977626863285,215},{3292432570988393480,215},{6773273102321390001,215},
{5142495994909123529,215},{7965477576716729319,215},{9908176069129040976u,215},{13200358867998567,215},{10833110490137134,215},{30260512256479701,215},
{17806426459791701,215},{60521024512959402,215},{31753058399100835,215},{97883281903023402,215},{63506116798201670,215},{1066180791050745314,216},
{1316973028395357392,216},{2132361582101490628,216},{2633946056790714784,216},{4264723164202981256,216},{5267892113581429568,216},{8341038368061359471,216},
{8152630407716756430,216},{11332245998495367,216},{10210406200302734,216},{22664491996990734,216},{12701223359640334,216},{49188778514464035,216},
{25402446719280668,216},{74591225233744703,216},{82310814274709837,216},{99977031585527634,216},{99727092860258777,216},{1128941606854127130,217},
{1254212212591975576,217},{2257883213708254260,217},{1630526081543351286,217},{4954715599236808453,217},{2822102991266402639,217},{9971564449604710757u,217},
{5644205982532805278,217},{11830409430362887,217},{19549998471328021,217},{23535305926268181,217},{39099996942656042,217},{47070611852536362,217},
{78325506819769677,217},{94141223705072724,217},{94015710770615131,217},{1004173052854109056,218},{1015796420299799231,218},{1643153552464702205,218},
{1480000533962801002,218},{2245255742786903341,218},{2960001067925602004,218},{4490511485573806682,218},{5205256810712505345,218},{9695768296286312027u,218},
{8390544148271102403,218},{15690203950845454,218},{15564691016387861,218},{31380407901690908,218},{18752936980339989,218},{62760815803381816,218},
{50133344882030897,218},{75513799659190328,218},{87639218842710875,218},{1314522841971761764,219},{1041051362142501069,219},{2629045683943523528,219},
{2082102724285002138,219},{5258091367887047056,219},{4164205448570004276,219},{7613665572001309889,219},{8328410897140008552,219},{10177284497755291,219},
{12501957986893326,219},{22679242484648617,219},{17527843768542175,219},{47683158458435269,219},{35055687537084350,219},{95366316916870538,219},
{70111375074168700,219},{1203274511248747058,220},{1261688284797220053,220},{2246185612182558555,220},{1808631244455741443,220},{4492371224365117110,220},
{3617262488911482886,220},{8984742448730234220,220},{6082225284957449997,220},{10023447934399102,220},{10117212232199059,220},{13557340317006133,220},
{14022275014833740,220},{27114680634012266,220},{27579615331839873,220},{54229361268024532,220},{55159230663679746,220},{99160028579496924,220},
{81660508439853345,220},{1035472145768569785,221},{1038667301389358610,221},{1796948489746046844,221},{2027408428319149999,221},{3593896979492093688,221},
{4054816856638299998,221},{7187793958984187376,221},{8109633713276599996,221},{8844549392213899032,221},{9492393344715218926u,221},{10287950616211778,221},
{11217820011866992,221},{32258655942118155,221},{22435640023733984,221},{64517311884236310,221},{33188525337773369,221},{93986359639388823,221},
{66377050675546738,221},{1611941507763406555,222},{1014023729721653882,222},{2994701139202025485,222},{2028047459443307764,222},{3547804991777473057,222},
{4285276795211403153,222},{7095609983554946114,222},{8570553590422806306,222},{12903462376847262,222},{10462047042541936,222},{25806924753694524,222},
{20285062960926107,222},{51613849507389048,222},{28887371212157615,222},{80501220719546663,222},{57774742424315230,222},{1197880455680810194,223},
{1152044080415852669,223},{2395760911361620388,223},{1520779982132817717,223},{4791521822723240776,223},{3041559964265635434,223},{5666502751952043447,223},
{6083119928531270868,223},{10303080361559154,223},{10122885886704325,223},{11427142260031493,223},{11554948484863046,223},{22982090744894539,223},
{23109896969726092,223},{45964181489789078,223},{46219793939452184,223},{91928362979578156,223},{92439587878904368,223},{1021657330076666751,224},
{1034914404324267952,224},{1603285457609741262,224},{1529947257185809222,224},{2423262736520594903,224},{2276586335672730823,224},{4846525473041189806,224},
{4553172671345461646,224},{8909742767383491991,224},{9106345342690923292,224},{16417456733509715,224},{10061918626812376,224},{18078937656319904,224},
{27757437608637621,224},{36157875312639808,224},{64682150270266747,224},{72315750625279616,224},{92695200328567474,224},{1595951637567348058,225},
{1537281077228202426,225},{3191903275134696116,225},{2291253975757517231,225},{6383806550269392232,225},{3916540893494438105,225},{8733731086366055095,225},
{7833081786988876210,225},{10489505164263594,225},{11511954962916018,225},{13645190286133984,225},{24857364936430337,225},{27290380572267968,225},
{49714729872860674,225},{56837105328547331,225},{92095639703328144,225},{1143567898449759175,226},{1269145376844048201,226},{1746746217273211019,226},
{1566616357397775242,226},{3313362574670986261,226},{3133232714795550484,226},{6446595289466536745,226},{6266465429591100968,226},{10338016640080980,226},
{10309636976691795,226},{12834185074188107,226},{20619273953383590,226},{25668370148376214,226},{37120369048768299,226},{51336740296752428,226},
{84790199324324125,226},{98555301735505975,226},{85692736997928683,226},{1066574139869986207,227},{1000084435055578070,227},{1289319057893307349,227},
{1109189198017871572,227},{2578638115786614698,227},{2218378396035743144,227},{7555784487484408317,227},{4436756792071486288,227},{9840652588334559598u,227},
{8873513584142972576,227},{12377240304707991,227},{16958039864864825,227},{19711060347101195,227},{33916079729729650,227},{53627140076830845,227},
{43540299552201271,227},{93049260771033235,227},{72875579721774087,227},{1655260785397230285,228},{1126235221277025718,228},{3310521570794460570,228},
{2398508255911178921,228},{6621043141588921140,228},{3502015446175999111,228},{9357083086238766087u,228},{7004030892351998222,228},{10725428015366169,228},
{13566431891891860,228},{21450856030732338,228},{24291859907258029,228},{45742715937990367,228},{48583719814516058,228},{91485431875980734,228},
{94326435752506425,228},{1324208628317784228,229},{1265793502974933234,229},{2648417256635568456,229},{2177806817858214883,229},{5296834513271136912,229},
{3060612570070071035,229},{8357447083341207947,229},{6121225140140142070,229},{10628929434503523,229},{10853145513513488,229},{16024283273975594,229},
{18865287150501285,229},{32048566547951188,229},{37730574301002570,229},{64097133095902376,229},{75461148602005140,229},{98986703520379255,229},
{92507171861159286,229},{1058051128240409134,230},{1036658739723996109,230},{1153488990409698097,230},{1224245028028028414,230},{2377734018437726511,230},
{2448490056056056828,230},{4755468036875453022,230},{4896980112112113656,230},{9510936073750906044u,230},{9793960224224227312u,230},{14115332951024469,230},
{15092229720401028,230},{19797340704075851,230},{30184459440802056,230},{39594681408151702,230},{60368918881604112,230},{79189362816303404,230},
{91530275091782727,230},{1661616686847858131,231},{1007698437469754858,231},{2669315124317612989,231},{2952339274790934257,231},{4684711999257122705,231},
{5904678549581868514,231},{8715505749136142137,231},{8061587499758038864,231},{10510748945318328,231},{10387118736726205,231},{25052715176735015,231},
{20774237473452410,231},{45826952650187425,231},{41548474946904820,231},{91653905300374850,231},{87375427597092245,231},{1085300039413337343,232},
{1294145370105702210,232},{1873884799702849082,232},{2231087769957126751,232},{3747769599405698164,232},{4104972569659975833,232},{7852742169065673997,232},
{8209945139319951666,232},{10021086070694006,232},{10382260776982035,232},{18330781060074970,232},{17475085519418449,232},{36661562120149940,232},
{35805866579493419,232},{73323124240299880,232},{71611733158986838,232},{89581339512773779,232},{98727298203834584,232},{1011121219632380942,233},
{1035316296084561768,233},{1356226651660568198,233},{1713429621914845867,233},{3069656273575414065,233},{3426859243829691734,233},{6139312547150828130,233},
{6496515517405105799,233},{9421001332267434908u,233},{9257358973630603847u,233},{14664624848059976,233},{12953233766746934,233},{29329249696119952,233},
{25906467533493868,233},{58658499392239904,233},{70756037618330317,233},{93121922332298982,233},{79430793681794646,233},{1227862509430165626,234},
{1585065479684443295,234},{2455725018860331252,234},{3631502995401386005,234},{4911450037720662504,234},{6087228014261717257,234},{7724378026835271425,234},
{7977411931311327348,234},{13419530828381199,234},{10775545623799627,234},{21043892111677879,234},{23144681672013177,234},{42087784223355758,234},
{54185322449446171,234},{96273106672801929,234},{68383650235871882,234},{1015018479271498713,235},{1452601198160554402,235},{1544875605367054285,235},
{2905202396321108804,235},{3089751210734108570,235},{5810404792642217608,235},{6179502421468217140,235},{9891385165504381165u,235},{11358012625266011,235},
{10098188492939390,235},{11996098398906138,235},{16096237692392459,235},{44087133956506781,235},{28092336091298597,235},{88174267913013562,235},
{56184672182597194,235},{95968787191249104,235},{93085925823974083,235},{1111474177633232337,236},{1115655468788466078,236},{1235900484293643428,236},
{1978277033100876233,236},{2471800968587286856,236},{3214177517394519661,236},{4943601937174573712,236},{6428355034789039322,236},{9887203874349147424u,236},
{9448036723880775434u,236},{15994797865208184,236},{12138114156964123,236},{31989595730416368,236},{20094937158694505,236},{68160482616066477,236},
{40189874317389010,236},{76198457479544279,236},{80379748634778020,236},{1677145122422749370,237},{1039327168330125927,237},{3607324149321554663,237},
{2078654336660251854,237},{5092077246936020273,237},{6279879725027592761,237},{7808549537688895570,237},{8061583442164951493,237},{11959580061119799,237},
{12089423039915671,237},{19997554924597601,237},{28100451277473339,237},{39995109849195202,237},{56200902554946678,237},{60122507752588675,237},
{88352802008857886,237},{1154762383215096183,238},{1407796287691152106,238},{2936466100352454915,238},{2562558670906248289,238},{5872932200704909830,238},
{3750361148997820777,238},{8996352015780468058,238},{6873780964073379005,238},{11136306127952638,238},{10507796662979285,238},{12024501550517735,238},
{21015593325958570,238},{24049003101035470,238},{37849895496683399,238},{48098006202070940,238},{81138101078547245,238},{96196012404141880,238},
{96606246769535503,238},{1174586440140981966,239},{1000848763368469175,239},{2349172880281963932,239},{1374756192814675801,239},{4698345760563927864,239},
{2749512385629351602,239},{9396691521127855728u,239},{5499024771258703204,239},{9631010083362074627u,239},{9955623481882329662u,239},{15642765770652042,239},
{16227620215709449,239},{19239202480828376,239},{25847221456123637,239},{45086423936952013,239},{51694442912247274,239},{96780866849199287,239},
{81635645483772760,239},{1134552489606243199,240},{1775095698162063471,240},{2269104979212486398,240},{3723929073096639733,240},{5993034052309126131,240},
{7447858146193279466,240},{9076419916849945592,240},{8381469209759894428,240},{12046329060475708,240},{11660492377508507,240},{16712965779721753,240},
{23320984755017014,240},{33425931559443506,240},{46641969510034028,240},{66851863118887012,240},{93283939020068056,240},{1337596951879835459,241},
{1281086417111640544,241},{2966158722536501585,241},{1689278377892789087,241},{5641352626296172503,241},{3087591937008747507,241},{9245951521154530337u,241},
{6175183874017495014,241},{10254401941128088,241},{11971601492124910,241},{16090747550488947,241},{23943202984249820,241},{32181495100977894,241},
{40033950534738767,241},{50761115568398065,241},{80067901069477534,241},{99419194902832107,241},{97451880443284937,241},{1186463489014600634,242},
{1141255061200044702,242},{2372926978029201268,242},{1409615666069597403,242},{4745853956058402536,242},{2528266513362364139,242},{9782672730893635739u,242},
{5056533026724728278,242},{9884649434593879167u,242},{9971660845970222978u,242},{10152223113679613,242},{19154562387399856,242},{20304446227359226,242},
{38309124774799712,242},{40608892454718452,242},{76618249549599424,242},{81217784909436904,242},{96725964331003933,242},{1840148618667994881,243},
{1069499569100311789,243},{3680297237335989762,243},{2036753731437814669,243},{7462839881434788433,243},{4073507462875629338,243},{9208628794095772435,243},
{8147014925751258676,243},{10382199881671487,243},{14325050259570502,243},{20764399763342974,243},{28386878429111973,243},{41528799526685948,243},
{56773756858223946,243},{83057599053371896,243},{87000449431270911,243},{1259796121265493153,244},{1067922428949152183,244},{1841725758819154487,244},
{2813711341610136185,244},{3683451517638308974,244},{5333303584141122491,244},{9016755101779431465,244},{6305289166932104189,244},{11827454939189755,244},
{10776758968088211,244},{24443479953959313,244},{12879247104798589,244},{48886959907918626,244},{24969924134017375,244},{97773919815837252,244},
{49939848268034750,244},{99610993473504019,244},{99879696536069500,244},{1138363345271050147,245},{1125484536644054474,245},{1803351020355886293,245},
{2250969073288108948,245},{3606702040711772586,245},{2852086080073404379,245},{7213404081423545172,245},{6458788120785176965,245},{18923927902703608,245},
{10776539729186753,245},{37586168387688391,245},{39163308538847997,245},{55984967543742685,245},{78326617077695994,245},{92782565855851273,245},
{99091126460489697,245},{1000360074222161294,246},{1007586434626430347,246},{1688279142449625476,246},{1291757624157035393,246},{3338131208952438993,246},
{2583515248314070786,246},{6676262417904877986,246},{5167030496628141572,246},{8940110299819982607,246},{8863256147926358689,246},{11196993508748537,246},
{14351273811067749,246},{22393987017497074,246},{15980751445771120,246},{57562107694902291,246},{31961502891542240,246},{89575948069988296,246},
{63923005783084480,246},{1342937898770337989,247},{1010349853757541139,247},{2980036766606660869,247},{1726538738449097387,247},{5960073533213321738,247},
{3235770659725833801,247},{9784166131071125321u,247},{6471541319451667602,247},{10003586942828233,247},{12582378808410954,247},{12805536150034402,247},
{12784601156616896,247},{25611072300068804,247},{38364270966559441,247},{63975343266628245,247},{76728541933118882,247},{1148553343208192153,248},
{1043608658258820824,248},{2192162001467012977,248},{1764965814395909346,248},{4384324002934025954,248},{2780483939598982759,248},{8768648005868051908,248},
{5560967879197965518,248},{10034321450806565,248},{10064387976636970,248},{12795068653325649,248},{10210932930559512,248},{25590137306651298,248},
{23006001583885161,248},{51180274613302596,248},{48596138890536459,248},{84606559061922329,248},{97192277781072918,248},{1030161486582305671,249},
{1002358253278564818,249},{1603840063335043195,249},{1711751727193861850,249},{3207680126670086390,249},{3315591790528905045,249},{7806343967867025991,249},
{5240199866530956879,249},{9089416018535060547,249},{9521062673970335167u,249},{11269709211766974,249},{15337334389256774,249},{22539418423533948,249},
{30674668778513548,249},{33258804501279685,249},{61349337557027096,249},{66517609002559370,249},{94608142058306781,249},{1283072050668034556,250},
{1326236716211562018,250},{2566144101336069112,250},{2652473432423124036,250},{3827633819232339937,250},{5304946864846248072,250},{9132580684078588009,250},
{8000584962812899570,250},{11676471729515954,250},{11389350496971440,250},{13303521800511874,250},{24836432913755571,250},{26607043601023748,250},
{48189376372787479,250},{74796419973811227,250},{96378752745574958,250},{1218325052352743363,251},{1095521105404071584,251},{2436650104705486726,251},
{1600116992562579914,251},{5168762818533755079,251},{2904771376002378201,251},{9550847240150041415u,251},{5809542752004756402,251},{10259965327755208,251},
{10231271056446961,251},{18979052658170259,251},{15255981885706978,251},{37958105316340518,251},{34235034543877237,251},{46887736315990743,251},
{68470069087754474,251},{93775472631981486,251},{85573239224038969,251},{1052961313350956886,252},{1015276950508514503,252},{1910169448030008283,252},
{1398278637699176582,252},{3820338896060016566,252},{3308448085729184865,252},{7128786981789201431,252},{6616896171458369730,252},{8506390596952233428,252},
{9650556670600917553u,252},{10866775572183461,252},{10715557199580270,252},{21733551144366922,252},{28726037571483911,252},{36172179116410473,252},
{64746998315291193,252},{72344358232820946,252},{93019380768965531,252},{1464908032092221384,253},{1323379234291673946,253},{3158649278914179593,253},
{2646758468583347892,253},{5805407747497527485,253},{5293516937166695784,253},{7569913393219759413,253},{9563252253671728166u,253},{10152405092211443,253},
{12707450266893133,253},{20304810184422886,253},{24439814691651803,253},{44744624876074689,253},{30154778531427947,253},{89489249752149378,253},
{56174552555626977,253},{1161081549499505497,254},{1252614835391400227,254},{2322163098999010994,254},{1901805574560074023,254},{4644326197998021988,254},
{3017120481113632155,254},{9288652395996043976u,254},{7661446679111654143,254},{10042942728141918,254},{10538215352526241,254},{14589846344646742,254},
{18724850851875659,254},{33314697196522401,254},{37449701703751318,254},{54130516415881625,254},{74899403407502636,254},{87492145840142239,254},
{99803294906352564,254},{1023781620661663402,255},{1042783868503821135,255},{1700432345597905617,255},{1206848192445452862,255},{2907280538043358479,255},
{2413696384890905724,255},{7588220050398138359,255},{4827392769781811448,255},{9269650148153886243u,255},{8868294871557107005,255},{10826103283176325,255},
{16633882484392094,255},{30805535155542123,255},{24114436379594715,255},{61611070311084246,255},{39075544169999957,255},{95762154854600073,255},
{68997759750810441,255},{1085885136935396061,256},{1674942143680930850,256},{2168526296833383605,256},{1773658974311421401,256},{4337052593666767210,256},
{5518410584195245305,256},{8674105187333534420,256},{9065728532818088107,256},{12889751589246403,256},{10630666477134712,256},{26475093842271593,256},
{19291549103675772,256},{52950187684543186,256},{27459985767568419,256},{80410173452111605,256},{54919971535136838,256},{1184601967565886612,257},
{1103682116839049061,257},{1734821037466706884,257},{2207364233678098122,257},{3469642074933413768,257},{4414728467356196244,257},{6939284149866827536,257},
{8829456934712392488,257},{10172683138641365,257},{10358596527694206,257},{16082034690422321,257},{18306657178378946,257},{32164069380844642,257},
{36613314356757892,257},{64328138761689284,257},{73226628713515784,257},{89818340678664051,257},{86574363641255534,257},{1060969365070281861,258},
{1071962971955795744,258},{1798259327233213518,258},{1371672859827997997,258},{4368771738550020527,258},{2743345719655995994,258},{8656623626373203503,258},
{5486691439311991988,258},{8936328601738498175,258},{9921424819175095813u,258},{16591711965148267,258},{11568036937374450,258},{29939446892888017,258},
{33498842873618617,258},{59878893785776034,258},{66997685747237234,258},{88038642688298751,258},{70557081727967834,258},{1129706228153133418,259},
{1406239521495835794,259},{2259412456306266836,259},{3446465480403913891,259},{3884838475200291369,259},{6892930960807827782,259},{8241823686359149939,259},
{9981943297142201746u,259},{12498406587308077,259},{10678187942191800,259},{27447869706376597,259},{15661342315214640,259},{31719144883253317,259},
{37414178452422277,259},{98004951434344431,259},{74828356904844554,259},{1030562270004955195,260},{1346218251870830536,260},{1901959312236726909,260},
{1742794084463543428,260},{3803918624473453818,260},{3644753396700270337,260},{7448672021173724155,260},{7289506793400540674,260},{10078017320411269,260},
{10820563781421024,260},{22037587815666085,260},{12529073852171712,260},{32288648240170213,260},{36844675095505381,260},{64577296480340426,260},
{73689350191010762,260},{90031904437507887,260},{97558117136882075,260},{1017587668276177630,261},{1108807647051301125,261},{1489734404234744831,261},
{1330569176461561350,261},{2979468808469489662,261},{2820303580696306181,261},{7892195079994244605,261},{5640607161392612362,261},{9324682129952895934u,261},
{9666287315276326405u,261},{11093048553934018,261},{12380564559969761,261},{30010634812502629,261},{24761129119939522,261},{67845807329639851,261},
{41697720535244451,261},{88744388431472144,261},{86069914750980523,261},{1578439015998848921,262},{1064455341169249080,262},{3156878031997697842,262},
{1933257463055265281,262},{5090135495052963123,262},{3866514926110530562,262},{8565343982597027927,262},{7733029852221061124,262},{10439346384074133,262},
{13034266729829646,262},{20878692768148266,262},{23473613113903779,262},{28703230472782859,262},{46947226227807558,262},{57406460945565718,262},
{75650456700590417,262},{1027967349659199682,263},{1419273788225665440,263},{1879531622594598946,263},{2359039599522964913,263},{3103152191537031507,263},
{5373990252698096211,263},{7821231390582961333,263},{6509409283278628563,263},{10962308119962041,263},{10300128048285944,263},{21924616239924082,263},
{13557228465717554,263},{43849232479848164,263},{26611383529231227,263},{70460616009079391,263},{53222767058462454,263},{98396359681662812,263},
{91219978775123495,263},{1094678551836833357,264},{1135419030580532352,264},{1180639896573899493,264},{2270838061161064704,264},{3976206800656697305,264},
{3451477957734964197,264},{7952413601313394610,264},{6902955915469928394,264},{9526600130078593934u,264},{9608081087565991924u,264},{10242094689929386,264},
{17740922352820818,264},{24736676613508369,264},{35481844705641636,264},{60218521319150005,264},{70963689411283272,264},{98946706454033476,264},
{75216176644932869,264},{1590482720262678922,265},{1598630816011418721,265},{3180965440525357844,265},{2123359658933151829,265},{6361930881050715688,265},
{4246719317866303658,265},{9534748225827333733u,265},{8493438635732607316,265},{12043704263830001,265},{12400582982389396,265},{24087408527660002,265},
{18893263840873066,265},{48174817055320004,265},{56322912804059803,265},{96349634110640008,265},{59276863866012666,265},{1057605781592206015,266},
{1285423129408126816,266},{2115211563184412030,266},{2766071223637215237,266},{5727367412095392079,266},{4035198161547862455,266},{8265621287916686515,266},
{8070396323095724910,266},{10531040860997630,266},{10816543835845146,266},{16010688522632082,266},{13484991922950493,266},{32021377045264164,266},
{40169472794003963,266},{72190849839268127,266},{80338945588007926,266},{95493125186097460,266},{99731839634864145,266},{1002264597130534096,267},
{1171679122074563201,267},{1653124257583337303,267},{1614079264619144982,267},{3306248515166674606,267},{3228158529238289964,267},{6612497030333349212,267},
{6456317058476579928,267},{9658006481540350250u,267},{9723520580679062213u,267},{13199488948102977,267},{17697408267349545,267},{27246720785959291,267},
{35394816534699090,267},{62641537320658381,267},{70789633069398180,267},{92690691646357566,267},{86238081677124441,267},{1384971394809377556,268},
{1228791422952608272,268},{3345293508130866927,268},{2457582845905216544,268},{4652174917011859841,268},{5802876354036083471,268},{9304349834023719682u,268},
{9567340608822292929u,268},{11171918840526337,268},{14157926613879636,268},{29606375221605897,268},{28315853227759272,268},{57922228449365169,268},
{56631706455518544,268},{79380507922231267,268},{76799463934538017,268},{1463061380737762198,269},{1035631293321801267,269},{2728832961464408191,269},
{1610982011833913082,269},{5457665922928816382,269},{3419253823678942369,269},{7035797447369000943,269},{8876919746607758751,269},{10030457176991552,269},
{11650312319631748,269},{12130906742158275,269},{23300624639263496,269},{38528784166653671,269},{37496366571576371,269},{77057568333307342,269},
{74992733143152742,269},{96673502639776042,269},{96486626991030963,269},{1012692014840814826,270},{1183551924417952151,270},{1236224829637164832,270},
{2406561808838127543,270},{4037366238497524785,270},{3958450318493078303,270},{6036320377745175557,270},{7916900636986156606,270},{9889798637097318656u,270},
{9876396816231584137u,270},{10117692431757540,270},{19016091619692701,270},{19409450787453240,270},{37393124812068641,270},{38632025926161401,270},
{74786249624137282,270},{77264051852322802,270},{96899594029061883,270},{1614946495399009914,271},{1112564971543699333,271},{2038412099249874013,271},
{2727511466942709247,271},{5957404457740729075,271},{5455022933885418494,271},{8153648396999496052,271},{9905282820060215826u,271},{10076395727954448,271},
{14845124535580409,271},{15527560629962592,271},{29877124719905897,271},{38797212741373769,271},{37475718219674825,271},{77594425482747538,271},
{74951436439349650,271},{1191480891548145815,272},{1165691724312093560,272},{2382961783096291630,272},{1880580259240981049,272},{4765923566192583260,272},
{5216726755575789331,272},{9531847132385166520u,272},{8076280895291339287,272},{10138132687332853,272},{11686550983622570,272},{17633276331267818,272},
{14990287287869930,272},{42100949045621129,272},{29980574575739860,272},{85750316387531975,272},{59961149151479720,272},{99792860451193119,272},
{98778385955776336,272},{1015078714605042064,273},{1238937232310988291,273},{1906369426477033304,273},{2377803949649081179,273},{3812738852954066608,273},
{4755607899298162358,273},{7625477705908133216,273},{9511215798596324716u,273},{9988822629710999825u,273},{9999223757575547263u,273},{17150063277506395,273},
{11992229830295944,273},{34300126555012790,273},{29142293107802339,273},{63442419662815129,273},{58284586215604678,273},{79428498562787782,273},
{95937838642367552,273},{1644140046362646383,274},{1320016664881734050,274},{3718451948319657033,274},{2640033329763468100,274},{7436903896639314066,274},
{4095599566857295333,274},{8839445896676415332,274},{8191199133714590666,274},{13720050622005116,274},{15370984629963093,274},{27440101244010232,274},
{22282267796799781,274},{49722369040810013,274},{44564535593599562,274},{99444738081620026,274},{89129071187199124,274},{1380136713386299573,275},
{1056013331905387240,275},{2737868140121797453,275},{2112026663810774480,275},{3643022424612129373,275},{4849894803932571933,275},{7286044849224258746,275},
{9699789607865143866u,275},{12007607187046183,275},{10233654325086294,275},{24015214374092366,275},{13699547479671464,275},{48030428748184732,275},
{27399094959342928,275},{77203476569487549,275},{54798189918685856,275},{99924406675965893,275},{99876166170824700,275},{1229277665971244253,276},
{1086185141388398304,276},{2074088331495554045,276},{1689621331048619584,276},{3763709662544173629,276},{4729207566000527677,276},{7527419325088347258,276},
{9458415132001055354u,276},{13088381418089038,276},{13311951879545643,276},{33719715206930842,276},{26400333297634681,276},{45034143763059991,276},
{52800666595269362,276},{97834810358329353,276},{83196046539737031,276},{1017538430482670953,277},{1005940224939888459,277},{1659270665196443236,277},
{1621690045619553369,277},{3280960710815996605,277},{3243380091239106738,277},{6561921421631993210,277},{6524340802055103343,277},{8212531282150400655,277},
{9967070798805237592u,277},{15041190649214211,277},{15130618833796853,277},{30082381298428422,277},{22673571204549619,277},{60164762596856844,277},
{37759475946055151,277},{97924238542911995,277},{75518951892110302,277},{1312384284326398642,278},{1274803664749508775,278},{2624768568652797284,278},
{2587187949075907417,278},{4192113585929097681,278},{6231799449528311721,278},{8384227171858195362,278},{9366489484080912515u,278},{11818324876373028,278},
{10586961774428665,278},{19584847708582399,278},{21173923548857330,278},{39169695417164798,278},{28761590011901417,278},{78339390834329596,278},
{67931285429066215,278},{1261392137736418291,279},{1019842931799607020,279},{2522784275472836582,279},{1873297896816182503,279},{4396082172289019085,279},
{3746595793632365006,279},{8792164344578038170,279},{7493191587264730012,279},{10042140074047763,279},{10075150445587963,279},{10233375332540622,279},
{13586257085813243,279},{23819632418353865,279},{27172514171626486,279},{47639264836707730,279},{54345028343252972,279},{95278529673415460,279},
{84520964122706561,279},{1005900612494040219,280},{1021966100969512288,280},{1758432868915607634,280},{1695090779897489433,280},{3516865737831215268,280},
{3453523648813097067,280},{7033731475662430536,280},{6970389386644312335,280},{8426337569177260883,280},{9886885076129059806u,280},{15702824181410471,280},
{16233616473886788,280},{19055705934683092,280},{31936440655297259,280},{38111411869366184,280},{50992146589980351,280},{76222823738732368,280},
{90165143044299169,280},{1457419966346980668,281},{1394077877328862467,281},{2851497843675843135,281},{2788155754657724934,281},{5639653598333568069,281},
{5576311509315449868,281},{6715733219734561426,281},{9949123327286653917u,281},{12349942428137850,281},{10410746234986597,281},{22760688663124447,281},
{20821492469973194,281},{45521377326248894,281},{33702227190587361,281},{98983512401856815,281},{59463696631815695,281},{1140599137470337254,282},
{1077257048452219053,282},{2281198274940674508,282},{2217856185922556307,282},{4499054460863230815,282},{4435712371845112614,282},{8998108921726461630,282},
{5893169132787444085,282},{10410038151889713,282},{10027132323913492,282},{19796702480371363,282},{11892739326363139,282},{39593404960742726,282},
{23785478652726278,282},{79186809921485452,282},{47534162710101753,282},{95031530824852703,282},{95068325420203506,282},{1026495070208882565,283},
{1014062137815504064,283},{1799621784345292326,283},{1178633826557488817,283},{3599243568690584652,283},{2978255610902781143,283},{7198487137381169304,283},
{5956511221805562286,283},{9061451010744579831,283},{9429070612459910536u,283},{15807926308016448,283},{15844720903367251,283},{18998947245900380,283},
{31689441806734502,283},{37997894491800760,283},{63378883613469004,283},{75995788983601520,283},{88723078139786445,283},{1642392112334212104,284},
{1062131479846200355,284},{3358308145011490349,284},{1756643357977070005,284},{5188475423331626495,284},{5335523264017758777,284},{7819475095168972813,284},
{8113570776541237377,284},{12616905370132516,284},{10145036729597137,284},{15199157796720304,284},{17744615627957289,284},{32943773424677593,284},
{35489231255914578,284},{65887546849355186,284},{70978462511829156,284},{1037695084666325299,285},{1184742925352457581,285},{2075390169332650598,285},
{2704523592180412459,285},{4150780338665301196,285},{3815742597189803899,285},{8301560677330602392,285},{7966522935855105095,285},{10543744509792125,285},
{10329009706351152,285},{21087489019584250,285},{11709106023690131,285},{41960243235727527,285},{23418212047380262,285},{67414821548097377,285},
{71487554078076553,285},{94102317796402994,285},{85742117933003669,285},{1080309184742237897,286},{1032678964748285704,286},{1224012945483010449,286},
{1593304587171021019,286},{3521646915817539335,286},{3186609174342042038,286},{5299597323832565639,286},{6373218348684084076,286},{9525573622813612841u,286},
{9259043681763142090u,286},{11853871297627805,286},{15926603827606981,286},{23707742595255610,286},{31853207655213962,286},{65378455283107789,286},
{45743445217831355,286},{93158930408342575,286},{91486890435662710,286},{1408658766327015734,287},{1704092079677424190,287},{2817317532654031468,287},
{2334563134503329943,287},{6708256090159581373,287},{4669126269006659886,287},{7191010488310282898,287},{9338252538013319772u,287},{10151913027174190,287},
{13400931360187947,287},{18631786081668515,287},{18297378087132542,287},{37263572163337030,287},{36594756174265084,287},{74527144326674060,287},
{73189512348530168,287},{1062059675931543355,288},{1363273663741939352,288},{1846028061892640877,288},{1459824543372079657,288},{3692056123785281754,288},
{4572575389376519581,288},{5731185944938203241,288},{9145150778753039162,288},{10127978388955190,288},{10558124936367163,288},{14905428865334812,288},
{13567796887190920,288},{29810857730669624,288},{35591532190657165,288},{59621715461339248,288},{65402389921326789,288},{96120733082728332,288},
{91200351717564737,288},{1004129148153459172,289},{1112241376703574559,289},{1807407710040584755,289},{1498444895224135779,289},{3614815420081169510,289},
{2996889790448271558,289},{8573594327978250311,289},{4649816093080631825,289},{9191519957611148263,289},{9299632186161263650u,289},{11838313782785455,289},
{14236612876262866,289},{22692551292538191,289},{28473225752525732,289},{45385102585076382,289},{51165777045063923,289},{71460029244124703,289},
{83021378164099785,289},{1445926168032467804,290},{1757963757015696217,290},{12176551319436468,290},{12545425193007801,290},{22016076219236165,290},
{16604275632819957,290},{44032152438472330,290},{33208551265639914,290},{63342328364500391,290},{91139079043724097,290},
};
static const struct { uint64_t w; int q; } float_texts[] = {
{7006492321624085355,-64},{7006492321624085354,-64},{2101947696487225607,-63},{9108440018111310961,-63},{8337725862732661572,-62},{9879154173489960350u,-62},
{4168862931366330786,-61},{6144693766064322856,-61},{8426708315217287456,-60},{2874763799562362221,-60},{1992576351346673634,-59},{8852492853602383123,-59},
{5954908908548491256,-58},{3962332557201817622,-58},{5753369258864670928,-57},{3570663330579941789,-57},{2321501668514250404,-56},{1249161662065691385,-56},
{3015480369661856729,-56},{3570663330579941789,-56},{6030960739323713458,-56},{7141326661159883578,-56},{9841189634975086676u,-56},{9993293296525531080u,-56},
{9461658908,-56},{1738559559550261091,-55},{1221402514019787132,-55},{3182035257937282247,-55},{3626181626671750295,-55},{6364070515874564494,-55},
{7252363253343500590,-55},{7991593483241208573,-55},{9768178958179080765u,-55},{7006492322,-55},{7006492321,-55},{1034314091060947918,-54},
{1450472650668700118,-54},{2071669336101112127,-54},{1953635791635816153,-54},{4972614637438512363,-54},{3907271583271632306,-54},{6985267201306976503,-54},
{7814543166543264612,-54},{3503246161,-54},{9108440018,-54},{1183376598632176031,-53},{1019954328768291442,-53},{2154901048022662567,-53},
{1894619019403168166,-53},{4309802096045325134,-53},{2439398016331059421,-53},{8619604192090650268,-53},{4878796032662118842,-53},{9987576846296397050u,-53},
{9757592065324237684u,-53},{6796297552,-53},{2592402159,-53},{1392210452323614810,-52},{1785663220017589915,-52},{2306227277256578717,-52},
{3571326440035179830,-52},{6833940972073060353,-52},{5877553717291758547,-52},{9224909109026314868u,-52},{8577233762242312369,-52},{6382914505,-52},
{8975316664,-52},{1113768361858891848,-51},{1428530576014071932,-51},{1591961989249542751,-51},{2857061152028143864,-51},{3183923978499085502,-51},
{5078547569588046783,-51},{6991322079150650395,-51},{8885945670239611676,-51},{8317407035,-51},{7040824134,-51},{1022969881307066289,-50},
{1010869268991304735,-50},{1398264415830130079,-50},{2021738537982609470,-50},{2796528831660260158,-50},{4691152422749221439,-50},{5593057663320520316,-50},
{7487681254409481597,-50},{9987569531599128066u,-50},{9878781055913577824u,-50},{8510856288,-50},{6847374881,-50},{1525379362723778268,-49},
{1294152335852059217,-49},{3050758725447556536,-49},{2819531698575837485,-49},{6101517450895113072,-49},{5639063397151674970,-49},{8597810654936922198,-49},
{9475514670876697967u,-49},{2220560605,-49},{9067935486,-49},{1137253497739755081,-48},{1127812679430334994,-48},{2265066177170090075,-48},
{2255625358860669988,-48},{4520691536030760063,-48},{4511250717721339976,-48},{9041383072061520126,-48},{9031942253752100039,-48},{1239489830,-48},
{9863313195,-48},{1000434653962236900,-47},{1258996240905830355,-47},{1812052941736072060,-47},{1802612123426651973,-47},{4339486241857152857,-47},
{2889843888468295209,-47},{8678972483714305714,-47},{5779687776936590418,-47},{1652499501,-47},{1208387380,-47},{2860886881,-47},
{2416774760,-47},{5721773762,-47},{4833549520,-47},{9770466662,-47},{9667099040,-47},{1007621359350847859,-46},
{1007196992724664284,-46},{1882646895743630925,-46},{1148384900739782014,-46},{3765293791487261850,-46},{2165022711773866385,-46},{5930316503261128235,-46},
{7662334672680221343,-46},{8396596667684070254,-46},{8528343757389767897,-46},{1854934146,-46},{1489307687,-46},{3709868292,-46},
{1933419808,-46},{7419736584,-46},{3866839616,-46},{9613495338,-46},{7733679232,-46},{1186063300652225647,-45},
{1317810390357923290,-45},{2372126601304451294,-45},{1732018169419093108,-45},{4744253202608902588,-45},{6156217156085316603,-45},{9488506405217805176u,-45},
{6928072677676372432,-45},{1170388647,-45},{1086926593,-45},{2863375077,-45},{1651255403,-45},{5726750154,-45},
{3302510806,-45},{9885706959,-45},{6082423829,-45},{1204894013275923792,-44},{1054248312286338632,-44},{2409788026551847584,-44},
{1543711043182111658,-44},{5101968843798977971,-44},{2805029295668940513,-44},{9639152106207390336u,-44},{5365463023210373257,-44},{1069850204,-44},
{1116330301,-44},{2186180505,-44},{1425523879,-44},{4134302167,-44},{2851047758,-44},{8268604334,-44},
{5702095516,-44},{9656135653,-44},{9975837974,-44},{1027953213273350601,-43},{1031515659817522114,-43},{1814873304963364946,-43},
{1411963953476414015,-43},{2662051677049213355,-43},{3791622839830344567,-43},{5324103354098426710,-43},{7583245679660689134,-43},{9838825558678780045u,-43},
{8396189275722934022,-43},{1748944404,-43},{1045195566,-43},{3497888808,-43},{2090391132,-43},{6995777616,-43},
{4180782264,-43},{9334655282,-43},{7916729915,-43},{1064820670819685342,-42},{1097195916800408277,-42},{2129641341639370684,-42},
{2162016587620093619,-42},{4259282683278741368,-42},{4291657929259464303,-42},{8518565366557482736,-42},{8583315858518928606,-42},{1034945680,-42},
{1014090298,-42},{1697339364,-42},{1583345983,-42},{4957169329,-42},{3166691966,-42},{8496413291,-42},
{6333383932,-42},{1280760053052231348,-41},{1004932313186807863,-41},{2535619909319884348,-41},{1327385085209640335,-41},{5287515817681333823,-41},
{2654770170419280670,-41},{8512090317361338149,-41},{8563890710930494845,-41},{1065944265,-41},{1169367711,-41},{1997324255,-41},
{1862759980,-41},{4605188227,-41},{3725519960,-41},{8330708187,-41},{7451039920,-41},{9925477569,-41},
{9913200706,-41},{1052323124179351095,-40},{1023057772990844746,-40},{1660977748616942273,-40},{1712778142186098969,-40},{3321955497233884546,-40},
{3425556284372197938,-40},{4957033049066248471,-40},{6851112568744395876,-40},{9914066098132496942u,-40},{8641591301284229889,-40},{1597859404,-40},
{1490207984,-40},{2316050541,-40},{2980415968,-40},{5296466509,-40},{5960831936,-40},{9264202164,-40},
{8169231057,-40},{1583277158263207229,-39},{1032846924668575051,-39},{2994939986867411761,-39},{2065693849337150102,-39},{5060633836204561863,-39},
{4131387698674300204,-39},{9192021534878862067,-39},{8262775397348600408,-39},{1544033694,-39},{1457912558,-39},{1587094262,-39},
{2165338553,-39},{3752432815,-39},{4330677106,-39},{7504865630,-39},{6582136795,-39},{1335267458474166862,-38},
{1109242294798612721,-38},{2210102761987877077,-38},{2444509753272779583,-38},{3256552395160589989,-38},{3725366377730395001,-38},{8840411047951508308,-38},
{6287079626645625837,-38},{1119578097,-38},{1144185087,-38},{1500973126,-38},{1316427359,-38},{3001946252,-38},
{2632854718,-38},{6003892504,-38},{8452201455,-38},{1081511218243550188,-37},{1003006220492527271,-37},{1160300397771424819,-37},
{1167005859858903511,-37},{2320600795542849638,-37},{2334011719717807022,-37},{4641201591085699276,-37},{4421881889497623827,-37},{9063083480583323103,-37},
{8843763778995247654,-37},{1008820010,-37},{1001471203,-37},{1496051728,-37},{1690440291,-37},{2059531825,-37},
{3380880582,-37},{5440412407,-37},{6761761164,-37},{9559476057,-37},{8471887047,-37},{1300609319437992388,-36},
{1163653128815164165,-36},{2929723699779222219,-36},{2327306257630328330,-36},{5257029957409550549,-36},{4654612515260656660,-36},{9911642472670207209u,-36},
{9309225030521313320u,-36},{1041330532,-36},{1601366982,-36},{3186492019,-36},{2968974217,-36},{6372984038,-36},
{4399081875,-36},{8129368399,-36},{7259297191,-36},{1281454432409951466,-35},{1182808015843205087,-35},{2464262448253156553,-35},
{1861845006104262664,-35},{5333649505521714237,-35},{3723690012208525328,-35},{9057339517730239565,-35},{7447380024417050656,-35},{1094085788,-35},
{1100582566,-35},{1318100368,-35},{1759632750,-35},{2636200736,-35},{4616599677,-35},{7252800413,-35},
{9233199354,-35},{1106188467731041399,-34},{1108296256280724522,-34},{1811467903546047913,-34},{2214484724011765921,-34},{3622935807092095826,-34},
{4428969448023531842,-34},{7245871614184191652,-34},{6441945761802438759,-34},{9659756959879133454u,-34},{9668188114077865946u,-34},{1010302204,-34},
{1014225123,-34},{1097334177,-34},{1407706200,-34},{2194668354,-34},{3650425859,-34},{4175067295,-34},
{7300851718,-34},{8350134590,-34},{9976033122,-34},{1609959493313188909,-33},{1289232267780361001,-33},{3219918986626377818,-33},
{2095265908711797017,-33},{6439837973252755636,-33},{4348787641640324865,-33},{9822228361195230531u,-33},{8697575283280649730,-33},{1631585874,-33},
{1126164960,-33},{1670026918,-33},{2252329920,-33},{5301232255,-33},{4504659840,-33},{8641286091,-33},
{7048141261,-33},{1414572254023935792,-32},{1063036979067634967,-32},{2477609233091570759,-32},{1739515056656129946,-32},{5376800994185120669,-32},
{3479030113312259892,-32},{9628948910455660537u,-32},{6958060226624519784,-32},{1060246451,-32},{1268965557,-32},{2120492902,-32},
{1801863936,-32},{4240985804,-32},{3603727872,-32},{6202164223,-32},{9487263129,-32},{1019322396400481473,-31},
{1089369649446159799,-31},{1616542660907820117,-31},{1475928550925299787,-31},{3233085321815640234,-31},{3935896069782660045,-31},{6466170643631280468,-31},
{7168981391598300279,-31},{9980743987357543201u,-31},{9136539723571257543,-31},{1043814786,-31},{1049255465,-31},{1093219409,-31},
{2098510930,-31},{2279807385,-31},{4197021860,-31},{4559614770,-31},{7388752199,-31},{9119229540,-31},
{9492703808,-31},{1686849715899080282,-30},{1574358427913064018,-30},{2558397395845124489,-30},{3148716855826128036,-30},{4076510179765180375,-30},
{6297433711652256072,-30},{8153020359530360750,-30},{8743339819511364297,-30},{1440403013,-30},{1678808744,-30},{3119211757,-30},
{2062251639,-30},{6238423514,-30},{3886097547,-30},{7533789363,-30},{7772195094,-30},{1141422850334250505,-29},
{1405621495934039622,-29},{1630604071906072150,-29},{2873165160649504557,-29},{3261208143812144300,-29},{5156010861318005567,-29},{6522416287624288600,-29},
{9721702262655007587u,-29},{1056960118,-29},{1295365849,-29},{1363714434,-29},{2590731698,-29},{2965834599,-29},
{5181463396,-29},{5931669198,-29},{6170074929,-29},{1105508774801311489,-28},{1050190594209521322,-28},{1304483257524857720,-28},
{1894802717505861267,-28},{2608966515049715440,-28},{4242872581050605163,-28},{5217933030099430880,-28},{7895425702120206779,-28},{9571441972333616377u,-28},
{9803436396005338338u,-28},{1078279010,-28},{1008301792,-28},{1977223066,-28},{1281696132,-28},{3954446132,-28},
{2563392264,-28},{5583905731,-28},{7451771061,-28},{8842824929,-28},{9339326650,-28},{1043586606019886176,-27},
{1633906066000889723,-27},{2087173212039772352,-27},{3567182882413533207,-27},{3874975673667790943,-27},{7433736515238820175,-27},{7749951347335581886,-27},
{9811858436847842313u,-27},{1391053868,-27},{1307505731,-27},{2698559599,-27},{3445705731,-27},{5397119198,-27},
{3819278797,-27},{7805653868,-27},{9216397995,-27},{1194114185310013454,-26},{1486747303047764035,-26},{1789486869796519386,-26},
{2680861488357777489,-26},{3578973739593038772,-26},{3871606857330789353,-26},{7157947479186077544,-26},{6253097595276813081,-26},{1096133467,-26},
{1361572665,-26},{2192266934,-26},{1843279599,-26},{5264399599,-26},{3686559198,-26},{8950958797,-26},
{7373118396,-26},{1004566847484511527,-25},{1189397842438211228,-25},{1197483001647015044,-25},{1484726013245563081,-25},{2394966003294030088,-25},
{2671428802614173037,-25},{4789932006588060176,-25},{5044834381351392949,-25},{9579864013176120352u,-25},{9791645538825832773u,-25},{1046962005,-25},
{1089258132,-25},{1438245467,-25},{1159055599,-25},{2876490934,-25},{3616761731,-25},{6493252665,-25},
{7233523462,-25},{9285151345,-25},{9272444792,-25},{1034839385738450801,-24},{1051323181400221074,-24},{1950469481926120352,-24},
{1923832428474270273,-24},{3841334319076850079,-24},{3847664856948540546,-24},{7682668638153700158,-24},{7635725069121690467,-24},{1298650533,-24},
{1223352798,-24},{2597301066,-24},{3337571863,-24},{5194602132,-24},{5934872929,-24},{7867200933,-24},
{9347742527,-24},{1004153227768256329,-23},{1010483765639946796,-23},{1531469297333387658,-23},{1532209444121690467,-23},{3062938594666775316,-23},
{3052497959288302809,-23},{6113956260378472507,-23},{6104995918576605618,-23},{1011342643,-23},{1390184312,-23},{2582241519,-23},
{1661256158,-23},{5164483038,-23},{4243497677,-23},{7806962745,-23},{5964992023,-23},{1000617885438259691,-22},
{1002098179014865309,-22},{1221607017214410007,-22},{1222183418576605618,-22},{2443214034428820014,-22},{2441982651362195611,-22},{4884043883066624403,-22},
{4883965302724391222,-22},{9765703580342233181u,-22},{9767930605448782444u,-22},{1081087158,-22},{1120712579,-22},{1561392549,-22},
{2201799737,-22},{3122785098,-22},{4403599474,-22},{8767573527,-22},{6285195617,-22},{9994738869,-22},
{9111401412,-22},{1000205229502171278,-21},{1000126649159938097,-21},{1953203580342233181,-21},{1953523256815969944,-21},{3906407160684466362,-21},
{3906569676473736763,-21},{7812814321368932724,-21},{7812662515789270401,-21},{1241188955,-21},{1777289958,-21},{2482377910,-21},
{3514954495,-21},{5004381241,-21},{7029908990,-21},{9969137061,-21},{7304971298,-21},{1000084681436419487,-20},
{1000056462362408638,-20},{1562528219074010849,-20},{1562567148357629776,-20},{3125056438148021698,-20},{3125038929283618927,-20},{6250017508864402771,-20},
{6250077858567237854,-20},{1366356377,-20},{1405981798,-20},{1985902328,-20},{2811963596,-20},{3185368809,-20},
{5623927192,-20},{8809296001,-20},{7236424307,-20},{1000003032386302948,-19},{1000004597008228302,-19},{1250017508864402771,-19},
{1250001564621925354,-19},{2500015944242477417,-19},{2500003129243850708,-19},{5000012814998626709,-19},{5000006258487701416,-19},{1108935270,-19},
{1046749111,-19},{2076433539,-19},{1934996538,-19},{2721432385,-19},{3869993076,-19},{5442864770,-19},
{6591425461,-19},{9720104166,-19},{9754233532,-19},{1000001370906829834,-18},{1000002443790435791,-18},{2000002741813659668,-18},
{2000001072883605957,-18},{4000001668930053711,-18},{4000002145767211914,-18},{8000003337860107422,-18},{8000000476837158203,-18},{1088572954,-18},
{1551410167,-18},{2177145908,-18},{3445682073,-18},{4011430077,-18},{7234225885,-18},{8022860154,-18},
{7679998415,-18},{1000000143051147461,-17},{1000000619888305664,-17},{1600000286102294922,-17},{1600000476837158203,-17},{3200000572204589844,-17},
{3200000190734863281,-17},{6400000381469726563,-17},{6400000381469726562,-17},{1282292450,-17},{1446845177,-17},{1878861422,-17},
{1535999683,-17},{3414861105,-17},{3071999366,-17},{6486860471,-17},{6143998732,-17},{1000000114440917969,-16},
{1000000038146972656,-16},{1280000076293945313,-16},{1280000076293945312,-16},{2560000152587890626,-16},{2560000152587890624,-16},{5120000305175781251,-16},
{5120000305175781249,-16},{1025833960,-16},{1020331446,-16},{1365944442,-16},{2383524631,-16},{2731888884,-16},
{4435192551,-16},{7852804913,-16},{6481357957,-16},{9909975347,-16},{9821935123,-16},{1000000030517578126,-15},
{1000000030517578124,-15},{1024000061035156251,-15},{1024000061035156249,-15},{2048000122070312501,-15},{2048000122070312499,-15},{4096000244140625001,-15},
{4096000244140624999,-15},{8192000488281250001,-15},{8192000488281249999,-15},{1641334336,-15},{1225498238,-15},{3282668672,-15},
{2389027145,-15},{6627306675,-15},{4778054290,-15},{9494139249,-15},{9556108580,-15},{1000000048828125001,-14},
{1000000048828124999,-14},{1638400097656250001,-14},{1638400097656249999,-14},{3276800195312500001,-14},{3276800195312499999,-14},{6553600390625000001,-14},
{6553600390624999999,-14},{1325461335,-14},{1387430666,-14},{2650922670,-14},{1911221716,-14},{5301845340,-14},
{3822443432,-14},{7582917533,-14},{7644886864,-14},{1000000039062500001,-13},{1000000039062499999,-13},{1310720078125000001,-13},
{1310720078124999999,-13},{2621440156250000001,-13},{2621440156249999999,-13},{5242880312500000001,-13},{5242880312499999999,-13},{1060369068,-13},
{1122338399,-13},{2120738136,-13},{1541371239,-13},{3020773147,-13},{3082742478,-13},{6041546294,-13},
{4944781831,-13},{9870880167,-13},{9889563662,-13},{1000000031250000001,-12},{1000000031249999999,-12},{1048576062500000001,-12},
{1048576062499999999,-12},{2097152125000000001,-12},{2097152124999999999,-12},{4194304250000000001,-12},{4194304249999999999,-12},{8388608500000000001,-12},
{8388608499999999999,-12},{1158733794,-12},{1038531831,-12},{2073326963,-12},{2077063662,-12},{4146653926,-12},
{3909986699,-12},{8049167227,-12},{7819973398,-12},{1000000050000000001,-11},{1000000049999999999,-11},{1677721700000000001,-11},
{1677721699999999999,-11},{3355443400000000001,-11},{3355443399999999999,-11},{6710886800000000001,-11},{6710886799999999999,-11},{1021653926,-11},
{1029127324,-11},{1603854727,-11},{1569973398,-11},{3158881329,-11},{3139946796,-11},{6268934533,-11},
{6279893592,-11},{1000000040000000001,-10},{1000000039999999999,-10},{1342177360000000001,-10},{1342177359999999999,-10},{2684354720000000001,-10},
{2684354719999999999,-10},{5368709440000000001,-10},{5368709439999999999,-10},{1000678204,-10},{1001274921,-10},{1259168908,-10},
{1250596717,-10},{2508572191,-10},{2501193434,-10},{5007378757,-10},{5002386868,-10},{1000000032000000001,-9},
{1000000031999999999,-9},{1073741888000000001,-9},{1073741887999999999,-9},{2147483776000000001,-9},{2147483775999999999,-9},{4294967552000000001,-9},
{4294967551999999999,-9},{8589935104000000001,-9},{8589935103999999999,-9},{1001519382,-9},{1000433743,-9},{2001085639,-9},
{2000867486,-9},{4000218153,-9},{4001734972,-9},{8000436306,-9},{8001516819,-9},{1000000051200000001,-8},
{1000000051199999999,-8},{1717987020800000001,-8},{1717987020799999999,-8},{3435974041600000001,-8},{3435974041599999999,-8},{6871948083200000001,-8},
{6871948083199999999,-8},{1000218153,-8},{1000172472,-8},{1600045681,-8},{1600344944,-8},{3200091362,-8},
{3200299263,-8},{6400182724,-8},{6400207901,-8},{1000000020480000001,-7},{1000000020479999999,-7},{1374389616640000001,-7},
{1374389616639999999,-7},{2748779233280000001,-7},{2748779233279999999,-7},{5497558466560000001,-7},{5497558466559999999,-7},{1000013237,-7},
{1000064888,-7},{1280026474,-7},{1280051651,-7},{2560052948,-7},{2560025177,-7},{5120027771,-7},
{5120050354,-7},{1000000028672000001,-6},{1000000028671999999,-6},{1099511693312000001,-6},{1099511693311999999,-6},{2199023386624000001,-6},
{2199023386623999999,-6},{4398046773248000001,-6},{4398046773247999999,-6},{8796093546496000001,-6},{8796093546495999999,-6},{1000006073,-6},
{1000009552,-6},{1024012146,-6},{1024003479,-6},{2048008667,-6},{2048006958,-6},{4096001709,-6},
{4096013916,-6},{8192003418,-6},{8192012207,-6},{1000000035225600001,-5},{1000000035225599999,-5},{1759218709299200001,-5},
{1759218709299199999,-5},{3518437418598400001,-5},{3518437418598399999,-5},{7036874837196800001,-5},{7036874837196799999,-5},{1000001709,-5},
{1000001416,-5},{1638400293,-5},{1638402832,-5},{3276800586,-5},{3276802539,-5},{6553601172,-5},
{6553601953,-5},{1000000045711360001,-4},{1000000045711359999,-4},{1407374967439360001,-4},{1407374967439359999,-4},{2814749934878720001,-4},
{2814749934878719999,-4},{5629499869757440001,-4},{5629499869757439999,-4},{1000000586,-4},{1000000039,-4},{1310720547,-4},
{1310720078,-4},{2621440469,-4},{2621440156,-4},{5242880313,-4},{5242880312,-4},{1000000020545536001,-3},
{1000000020545535999,-3},{1125899973951488001,-3},{1125899973951487999,-3},{2251799947902976001,-3},{2251799947902975999,-3},{4503599895805952001,-3},
{4503599895805951999,-3},{9007199791611904001,-3},{9007199791611903999,-3},{1000000094,-3},{1000000031,-3},{1048576063,-3},
{1048576062,-3},{2097152126,-3},{2097152124,-3},{4194304251,-3},{4194304249,-3},{8388608501,-3},
{8388608499,-3},{1000000080943513601,-2},{1000000080943513599,-2},{1801439958322380801,-2},{1801439958322380799,-2},{3602879916644761601,-2},
{3602879916644761599,-2},{7205759833289523201,-2},{7205759833289523199,-2},{1000000051,-2},{1000000049,-2},{1677721701,-2},
{1677721699,-2},{3355443401,-2},{3355443399,-2},{6710886801,-2},{6710886799,-2},{1000000027256422401,-1},
{1000000027256422399,-1},{1441151966657904641,-1},{1441151966657904639,-1},{2882303933315809281,-1},{2882303933315809279,-1},{5764607866631618561,-1},
{5764607866631618559,-1},{1000000041,-1},{1000000039,-1},{1342177361,-1},{1342177359,-1},{2684354721,-1},
{2684354719,-1},{5368709441,-1},{5368709439,-1},{1000000018666487809,0},{1000000018666487807,0},{1152921573326323713,0},
{1152921573326323711,0},{2305843146652647425,0},{2305843146652647423,0},{4611686293305294849,0},{4611686293305294847,0},{9223372586610589697u,0},
{9223372586610589695u,0},{1000000033,0},{1000000031,0},{1073741889,0},{1073741887,0},{2147483777,0},
{2147483775,0},{4294967553,0},{4294967551,0},{8589935105,0},{8589935103,0},{1000000382879714509,1},
{1000000272928551731,1},{1844675177029094605,1},{1844674517322117939,1},{3689349474448886989,1},{3689349914253538099,1},{7378698069288471757,1},
{7378700708116378419,1},{1000000461,1},{1000000051,1},{1717987021,1},{1717987635,1},{3435974861,1},
{3435974451,1},{6871950541,1},{6871948083,1},{1000001383435295785,2},{1000001471396226007,2},{1475741373076298793,2},
{1475743660060484567,2},{2951481690621434921,2},{2951479579559109591,2},{5902971121804729385,2},{5902969010742404055,2},{1000001577,2},
{1000001495,2},{1374393385,2},{1374391255,2},{2748779561,2},{2748781527,2},{5497568297,2},
{5497570263,2},{1000006036568504533,3},{1000005614356039467,3},{1180594224360945877,3},{1180593802148480811,3},{2361214625894725845,3},
{2361196611496216363,3},{4722420244590196949,3},{4722402230191687467,3},{9444831481981139157u,3},{9444813467582629675u,3},{1000007893,3},
{1000003371,3},{1099520213,3},{1099523883,3},{2199042261,3},{2199045931,3},{4398053589,3},
{4398057259,3},{8796141781,3},{8796210987,3},{1000061283069558417,4},{1000029532692185455,4},{1888994443893898897,4},
{1888962693516525935,4},{3778043381343288977,4},{3778152368454271343,4},{7555859781265358481,4},{7555968768376340847,4},{1000013457,4},
{1000014191,4},{1759280785,4},{1759347055,4},{3518594705,4},{3518660975,4},{7036960401,4},
{7037026671,4},{1000097841039533597,5},{1000063343466387939,5},{1511397136234440221,5},{1511644113638005219,5},{3023199236147373597,5},
{3022883263597517283,5},{6046803435973240349,5},{6045361563516541411,5},{1000203805,5},{1000217059,5},{1407706653,5},
{1407719907,5},{2815682077,5},{2815171043,5},{5630584349,5},{5631121891,5},{1000281074493972793,6},
{1000443059965370055,6},{1210261407120122169,6},{1210423392591519431,6},{2420603806975942969,6},{2420765792447340231,6},{4836785007060214073,6},
{4836946992531611335,6},{9687161805738238265u,6},{9678316591954894535u,6},{1001021753,6},{1000709831,6},{1127375161,6},
{1127063239,6},{2254594361,6},{2254282439,6},{4504838457,6},{4504526535,6},{9013715257,6},
{9021791943,6},{1005187238281954981,7},{1003418195525286235,7},{1937432361147647653,7},{1935663318390978907,7},{3873980200916960933,7},
{3872211158160292187,7},{7747075880455587493,7},{7745306837698918747,7},{1003308709,7},{1001568603,7},{1812809381,7},
{1811069275,7},{3616360101,7},{3631397211,7},{7257015973,7},{7238498651,7},{1019791859912347169,8},
{1033849570168599007,8},{1578238213706288673,8},{1592295923962540511,8},{3199534079559667233,8},{3141534195777991135,8},{6442125811266424353,8},
{6240010739408892383,8},{1005129249,8},{1008136671,8},{1491668513,8},{1461121503,8},{2934509089,8},
{2971070943,8},{5820190241,8},{5990969823,8},{1101075417754672237,9},{1060652403383165843,9},{1461363387944311917,9},
{1420940373572805523,9},{3046630456778726509,9},{2717977066255508371,9},{5064243089840708717,9},{5312050451620914067,9},{9918467194497134985u,9},
{9977332673297725830u,9},{1043242093,9},{1104241555,9},{1378786413,9},{1305568147,9},{2318310509,9},
{2513527699,9},{4734229613,9},{4929446803,9},{9468459226,9},{9858893606,9},{1704601520732249929,10},
{1754162993088290999,10},{2281062273035673417,10},{2330623745391714487,10},{4562124546071346834,10},{5789388259212255415,10},{9124249092142693668,10},
{8095231268425949367,10},{1591091017,10},{1630134455,10},{2127961929,10},{2167005367,10},{4255923858,10},
{5388230839,10},{9644154697,10},{7535714487,10},{1138053062900034655,11},{1157877651842451083,11},{2276106125800069310,11},
{2315755303684902166,11},{3404246894228895751,11},{5779475964741047201,11},{8035757501598700083,11},{9263021214739608664u,11},{1015176667,11},
{1304107564,11},{1475908147,11},{2608215128,11},{4927499359,11},{4084123275,11},{9854998718,11},
{8168246550,11},{1108316179486410013,12},{1187614535256075725,12},{1820884900640055448,12},{2098056985576103449,12},{2968850258011298317,12},
{4869033514421019477,12},{5264780972753784055,12},{9738067028842038954u,12},{1029236087,12},{1158858410,12},{2081888781,12},
{1633649310,12},{4505811317,12},{3267298620,12},{9011622634,12},{6534597240,12},{9990890685,12},
{9483278712,12},{1012934856408141964,13},{1005823773398295773,13},{1052956194550756811,13},{1813029497114645275,13},{2105912389101513622,13},
{3626058994229290550,13},{4211824778203027244,13},{7925037531727393679,13},{8423649556406054488,13},{9445184136855170607u,13},{1238512697,13},
{1306919448,13},{2545432145,13},{2613838896,13},{5090864290,13},{5227677792,13},{9908101576,13},
{7621914077,13},{1380700590255655512,14},{1450423597691716220,14},{2761401180511311024,14},{2158204644678559153,14},{6265444911727495335,14},
{3573766738652245019,14},{9560319620635497522u,14},{7147533477304490038,14},{1018172858,14},{1154986360,14},{2036345716,14},
{2309972720,14},{4072691432,14},{5296084543,14},{8145382864,14},{9368775975,14},{1253088982345499067,15},
{1160338878153372976,15},{2506177964690998134,15},{1578035205601872665,15},{4084213170292870799,15},{3156070411203745330,15},{5754998480086869555,15},
{8725568682906362703,15},{1001320145,15},{1187695887,15},{1899532214,15},{1873755195,15},{3773287409,15},
{3747510390,15},{7520797799,15},{7495020780,15},{9688097978,15},{9911968817,15},{1002214499009253430,16},
{1003497933344982548,16},{1150999696017373911,16},{1262428164481498132,16},{2413427860498872043,16},{2524856328962996264,16},{4826855720997744086,16},
{4938284189461868307,16},{9765139910459612393u,16},{9876568378923736614u,16},{1524781175,16},{1499004156,16},{3023785331,16},
{2998008312,16},{6021793643,16},{5996016624,16},{8020465851,16},{7968911813,16},{1603543198414805488,17},
{1054513918970848194,17},{1886170901013447946,17},{1997599369477572167,17},{3883770270491020113,17},{3995198738955144334,17},{7767540540982040226,17},
{7990397477910288668,17},{1219824940,17},{1194047921,17},{1635025593,17},{2388095842,17},{4023121435,17},
{4776191684,17},{8046242870,17},{7190064545,17},{1238263171346194702,18},{1044182378412102153,18},{1419793946039458980,18},
{1642650882967707422,18},{2839587892078917960,18},{4816524180438998045,18},{5679175784157835920,18},{9633048360877996090u,18},{1147095617,18},
{1215223206,18},{1609248574,18},{1438012909,18},{3047261483,18},{2876025818,18},{6094522966,18},
{5752051636,18},{9931668570,18},{9955648747,18},{1056732396652930424,19},{1013631452272280476,19},{1135835156831567184,19},
{1926609672175599218,19},{2271670313663134368,19},{3853219344351198436,19},{8446886587861948039,19},{7706438688702396872,19},{9086681254652537472,19},
{9489294184128384408u,19},{1061661123,19},{1916372740,19},{1986333714,19},{3868459321,19},{6128770099,19},
{5854793035,19},{8183598079,19},{9517769558,19},{1204847285129074214,20},{1393198157908569141,20},{2409694570258148428,20},
{2786396315817138282,20},{1444935671,20},{1170958607,20},{2889871342,20},{2341917214,20},{3649864353,20},
{4683834428,20},{8333698781,20},{9367668856,20},{1168336173,21},{1106397992,21},{2336672346,21},
{1385619924,21},{4673344692,21},{2564445833,21},{9967071429,21},{5128891666,21},{1013765328,22},
{1000013011,22},{1571234420,22},{1034370169,22},{3142468840,22},{2068740338,22},{6243578877,22},
{4096121873,22},{8144483439,22},{8150884943,22},{1132911127,23},{1017746629,23},{1893593027,23},
{1663264031,23},{3787186054,23},{3285169259,23},{8070677744,23},{6528979715,23},{1104851156,24},
{1004447797,24},{2126984706,24},{1305795943,24},{4253969412,24},{2605604589,24},{8513926121,24},
{5211209178,24},{1015031635,25},{1033970075,25},{1603524097,25},{1075328878,25},{3506029035,25},
{2150657756,25},{7972779759,25},{4301315512,25},{8965391031,25},{8602631024,25},{1197511443,26},
{1654352120,26},{2851863563,26},{1985222544,26},{3513604411,26},{6160567803,26},{7027208822,26},
{7484049499,26},{1304665562,27},{1323481696,27},{2190122715,27},{2646963392,27},{4380245430,27},
{4837086107,27},{7465233365,27},{9674172214,27},{1059836049,28},{1012575943,28},{1493046673,28},
{1233995174,28},{2986093346,28},{2727041847,28},{5972186692,28},{5713135193,28},{8548699467,28},
{9871961392,28},{1298057938,29},{1039006439,29},{2596115876,29},{2078012878,29},
};
static const struct { uint64_t w; int q; } doubles[] = {
{172309255278597,-1074},{1709449504336248,-1074},{4187469133201323,-1074},{6665488762066398,-1074},{8030319755845453,-1074},{8202629011124049,-1074},
{6281203699801984,-1073},{6665488762066398,-1073},{8030319755845453,-1073},{8202629011124049,-1073},{8547247521681243,-1073},{8759223328667059,-1073},
{6281203699801984,-1072},{7168773479452470,-1072},{8030319755845453,-1072},{8202629011124050,-1072},{8374938266402646,-1072},{8891866032238436,-1072},
{5148181788862356,-1071},{5591966678687598,-1071},{6281203699801984,-1071},{8030319755845453,-1071},{8374938266402646,-1071},{8891866032238436,-1071},
{4803563278305162,-1070},{6281203699801984,-1070},{7241916355463017,-1070},{7808427310932832,-1070},{8374938266402646,-1070},{8891866032238436,-1070},
{4803563278305163,-1069},{5591966678687598,-1069},{6847714655271799,-1069},{7241916355463017,-1069},{8891866032238435,-1069},{8891866032238436,-1069},
{4606462428209554,-1068},{5591966678687598,-1068},{7044815505367408,-1068},{7241916355463017,-1068},{8891866032238435,-1068},{8891866032238436,-1068},
{4606462428209553,-1067},{6946265080319603,-1067},{7044815505367408,-1067},{7143365930415213,-1067},{7241916355463017,-1067},{8891866032238436,-1067},
{4927521252390225,-1066},{6256412104984972,-1066},{6749164230223994,-1066},{7562975179643688,-1066},{7734668480702040,-1066},{7906361781760391,-1066},
{5099214553448576,-1065},{5185061203977751,-1065},{7734668480702039,-1065},{7734668480702040,-1065},{7906361781760391,-1065},{8806019381709260,-1065},
{5099214553448576,-1064},{5185061203977751,-1064},{5185061203977752,-1064},{7734668480702039,-1064},{8023967868586139,-1064},{8806019381709260,-1064},
{5099214553448576,-1063},{5185061203977751,-1063},{5185061203977752,-1063},{6459864842339895,-1063},{6604514536281945,-1063},{8023967868586139,-1063},
{5185061203977751,-1062},{5822463023158824,-1062},{6374018191810720,-1062},{6803251444456598,-1062},{7734668480702039,-1062},{8457916950412287,-1062},
{4547659384796680,-1061},{5503762113568287,-1061},{5822463023158824,-1061},{6374018191810720,-1061},{7734668480702039,-1061},{8776617860002823,-1061},
{4547659384796680,-1060},{4780513643858040,-1060},{5503762113568287,-1060},{5663112568363556,-1060},{6141163932749359,-1060},{8935968314798091,-1060},
{5344411658773019,-1059},{6141163932749360,-1059},{7268959962579319,-1059},{7734668480702039,-1059},{7967522739763400,-1059},{8298566495617019,-1059},
{5344411658773019,-1058},{5742787795761190,-1058},{7268959962579319,-1058},{7734668480702039,-1058},{7967522739763400,-1058},{8696942632605189,-1058},
{5543599727267104,-1057},{5742787795761189,-1057},{5742787795761190,-1057},{5975642054822550,-1057},{7268959962579319,-1057},{8896130701099274,-1057},
{4746847453290764,-1056},{4915178406127142,-1056},{5742787795761190,-1056},{6208496313883910,-1056},{8497754564111104,-1056},{8795132129397448,-1056},
{4746847453290764,-1055},{4979701712352125,-1055},{5244817624525977,-1055},{5742787795761190,-1055},{6273019620108894,-1055},{8730608823172464,-1055},
{5011963365464617,-1054},{5742787795761190,-1054},{6240757966996402,-1054},{7867226436788965,-1054},{8365196608024178,-1054},{8730608823172464,-1054},
{5610229839674263,-1053},{5742787795761190,-1053},{6240757966996402,-1053},{6805007116275077,-1053},{6871286094318541,-1053},{8365196608024178,-1053},
{4680568475247302,-1052},{6208496313883910,-1052},{6240757966996402,-1052},{6273019620108894,-1052},{6871286094318540,-1052},{8431475586067641,-1052},
{4680568475247301,-1051},{4680568475247302,-1051},{6240757966996402,-1051},{6273019620108894,-1051},{7336116776532021,-1051},{8896306268281122,-1051},
{4680568475247301,-1050},{6008342625889662,-1050},{6240757966996402,-1050},{7336116776532021,-1050},{8597173031176299,-1050},{8896306268281122,-1050},
{4680568475247302,-1049},{5444532394565606,-1049},{6638870753211800,-1049},{7069245192539690,-1049},{7800947458745502,-1049},{8199060244960900,-1049},
{4680568475247302,-1048},{5078681261462700,-1048},{5444532394565606,-1048},{6439814360104101,-1048},{7800947458745502,-1048},{8000003851853201,-1048},
{4680568475247302,-1047},{4780096671801151,-1047},{5078681261462700,-1047},{5444532394565606,-1047},{6340286163550251,-1047},{7800947458745502,-1047},
{5078681261462699,-1046},{5078681261462700,-1046},{5180952695232924,-1046},{6439814360104101,-1046},{6805665493207007,-1046},{7800947458745503,-1046},
{5078681261462700,-1045},{5180952695232924,-1045},{5510427319398777,-1045},{5942173377334853,-1045},{7369201400809425,-1045},{8730334499450827,-1045},
{4749206637296847,-1044},{5078681261462700,-1044},{5510427319398776,-1044},{5510427319398777,-1044},{8514461470482788,-1044},{8730334499450827,-1044},
{5078681261462700,-1043},{5510427319398776,-1043},{5510427319398777,-1043},{5726300348366815,-1043},{8157704464614145,-1043},{8730334499450827,-1043},
{5294554290430738,-1042},{5510427319398777,-1042},{6373919435270930,-1042},{7351013146340899,-1042},{7453284580111123,-1042},{8157704464614145,-1042},
{5510427319398777,-1041},{6373919435270930,-1041},{6834065892006461,-1041},{6862466290805915,-1041},{7453284580111123,-1041},{8157704464614145,-1041},
{5510427319398777,-1040},{6373919435270930,-1040},{6618192863038423,-1040},{6834065892006461,-1040},{7697558007878615,-1040},{8157704464614145,-1040},
{5294554290430738,-1039},{6496056149154677,-1039},{6618192863038422,-1039},{6618192863038423,-1039},{6720464296808647,-1039},{8044102869416331,-1039},
{5294554290430738,-1038},{6557124506096550,-1038},{6618192863038422,-1038},{6618192863038423,-1038},{7331147866227377,-1038},{8654786438835061,-1038},
{5264020111959801,-1037},{6557124506096550,-1037},{6587658684567486,-1037},{6618192863038423,-1037},{7636489650936742,-1037},{8960128223544426,-1037},
{5294554290430738,-1036},{6618192863038422,-1036},{6618192863038423,-1036},{7331147866227377,-1036},{7789160543291425,-1036},{8044102869416331,-1036},
{5141883398076055,-1035},{5294554290430738,-1035},{6618192863038422,-1035},{6618192863038423,-1035},{7203676703164924,-1035},{8807457331189744,-1035},
{5141883398076055,-1034},{5587296210493988,-1034},{5880038130557239,-1034},{6618192863038423,-1034},{6910934783101673,-1034},{7203676703164924,-1034},
{5587296210493988,-1033},{5880038130557239,-1033},{6618192863038423,-1033},{6910934783101673,-1033},{7719125029437141,-1033},{8820057195835858,-1033},
{4779105964158521,-1032},{5078884074845483,-1032},{5141883398076055,-1032},{6618192863038422,-1032},{7719125029437141,-1032},{8895656383712546,-1032},
{4779105964158521,-1031},{5141883398076055,-1031},{5504660831993590,-1031},{7168658946237781,-1031},{7719125029437141,-1031},{8469879626564439,-1031},
{5054339005758200,-1030},{5141883398076055,-1030},{7168658946237782,-1030},{7443891987837461,-1030},{7531436380155316,-1030},{7719125029437141,-1030},
{4779105964158521,-1029},{6155271172156919,-1029},{6592993133746193,-1029},{7168658946237781,-1029},{7168658946237782,-1029},{8982546115825454,-1029},
{4779105964158521,-1028},{6155271172156919,-1028},{6880826039991987,-1028},{7168658946237781,-1028},{7168658946237782,-1028},{8982546115825454,-1028},
{4635189511035624,-1027},{5720535511677935,-1027},{7024742493114884,-1027},{7168658946237782,-1027},{7603394606716765,-1027},{8110088493757196,-1027},
{4635189511035624,-1026},{4707147737597073,-1026},{4779105964158521,-1026},{6592993133746193,-1026},{7168658946237781,-1026},{7312575399360679,-1026},
{4635189511035624,-1025},{4779105964158521,-1025},{6592993133746193,-1025},{7168658946237781,-1025},{7312575399360679,-1025},{8327456323996688,-1025},
{4635189511035624,-1024},{4779105964158521,-1024},{5434195755987287,-1024},{7748057635117234,-1024},{8327456323996688,-1024},{8471372777119585,-1024},
{4854797067107835,-1023},{5793986888794530,-1023},{8471372777119584,-1023},{8471372777119585,-1023},{8831163909926827,-1023},{8910587889264005,-1023},
{4924888855475351,-1022},{5793986888794530,-1022},{6013594444866740,-1022},{8471372777119584,-1022},{8471372777119585,-1022},{8761072121559311,-1022},
{5793986888794530,-1021},{6118732127418014,-1021},{6408431471857741,-1021},{6698130816297468,-1021},{7242483610993162,-1021},{8471372777119585,-1021},
{4959934749659109,-1020},{5793986888794530,-1020},{6118732127418014,-1020},{6408431471857741,-1020},{6698130816297468,-1020},{7856928194056373,-1020},
{4959934749659108,-1019},{5574379332722320,-1019},{6408431471857741,-1019},{7242483610993162,-1019},{7856928194056374,-1019},{8076535750128584,-1019},
{4959934749659108,-1018},{5574379332722320,-1018},{6408431471857741,-1018},{7242483610993162,-1018},{8076535750128584,-1018},{8734787700921493,-1018},
{5223349673461016,-1017},{5969501718425182,-1017},{6408431471857741,-1017},{6847361225290300,-1017},{7593513270254466,-1017},{8427565409389887,-1017},
{5223349673461016,-1016},{5223349673461017,-1016},{5574379332722320,-1016},{6408431471857741,-1016},{8603080239020538,-1016},{8691551050615518,-1016},
{5047834843830365,-1015},{5223349673461016,-1015},{5574379332722320,-1015},{5903647987474704,-1015},{6408431471857741,-1015},{6913214956240778,-1015},
{4553931861701787,-1014},{5574379332722320,-1014},{6408431471857741,-1014},{7747267095376199,-1014},{7922781925006850,-1014},{8262931082013695,-1014},
{5223349673461016,-1013},{5398864503091668,-1013},{5574379332722319,-1013},{7396237436114896,-1013},{7922781925006851,-1013},{8273811584268154,-1013},
{4724006440205209,-1012},{5223349673461016,-1012},{5398864503091668,-1012},{7396237436114896,-1012},{7922781925006851,-1012},{8273811584268154,-1012},
{5223349673461016,-1011},{6998252245492489,-1011},{7673110308378947,-1011},{8273811584268154,-1011},{8347968371265405,-1011},{8597639987893309,-1011},
{5223349673461016,-1010},{6998252245492489,-1010},{7673110308378947,-1010},{8273811584268154,-1010},{8347968371265405,-1010},{8597639987893309,-1010},
{4575692866210706,-1009},{4622648397571810,-1009},{4761084833703836,-1009},{6147879352975378,-1009},{7673110308378947,-1009},{8736076424025334,-1009},
{4622648397571810,-1008},{6147879352975378,-1008},{6887017064996611,-1008},{7441977888500356,-1008},{7673110308378947,-1008},{7904242728257538,-1008},
{4992217253582426,-1007},{5870398941223506,-1007},{6517448208985995,-1007},{7441977888500356,-1007},{7673110308378947,-1007},{8828772407771899,-1007},
{4575692866210706,-1006},{6332663780980687,-1006},{6517448208985994,-1006},{7303541452368331,-1006},{7673110308378947,-1006},{8828772407771899,-1006},
{6425055994983340,-1005},{6702232636991303,-1005},{7303541452368331,-1005},{7673110308378947,-1005},{8828772407771899,-1005},{8921164621774554,-1005},
{6378859887982014,-1004},{6702232636991303,-1004},{7303541452368331,-1004},{7673110308378947,-1004},{8828772407771899,-1004},{8967360728775880,-1004},
{4575692866210706,-1003},{5177001681587734,-1003},{6471252101984667,-1003},{6841580382355061,-1003},{8366811337758629,-1003},{8828772407771900,-1003},
{4946021146581099,-1002},{5177001681587734,-1002},{6471252101984667,-1002},{6471252101984668,-1002},{7650012254878284,-1002},{8366811337758629,-1002},
{5766381758034542,-1001},{6471252101984668,-1001},{7060632178431475,-1001},{7419031719871648,-1001},{7650012254878284,-1001},{8944262675275217,-1001},
{5766381758034542,-1000},{6471252101984668,-1000},{7355322216654879,-1000},{7419031719871648,-1000},{7650012254878284,-1000},{8944262675275217,-1000},
{5471691719811138,-999},{5523472484097687,-999},{6471252101984667,-999},{7944702293101688,-999},{8159688280612435,-999},{8944262675275217,-999},
{4997801910867648,-998},{5471691719811138,-998},{7207977197543177,-998},{7944702293101688,-998},{8685358853842474,-998},{8944262675275217,-998},
{4997801910867648,-997},{5840054267590393,-997},{7207977197543177,-997},{7576339745322433,-997},{8681427388660197,-997},{8944262675275217,-997},
{4734966624252628,-996},{6574813630557765,-996},{6578745095740041,-996},{6839614649763922,-996},{7892921528815139,-996},{8681427388660198,-996},
{4734966624252628,-995},{5262602930073805,-995},{5655872993700765,-995},{6576779363148903,-995},{7890955796224001,-995},{8681427388660198,-995},
{4604531847240687,-994},{5064002165669187,-994},{5655872993700765,-994},{6576779363148903,-994},{8352391847243639,-994},{8549026879057119,-994},
{4604531847240688,-993},{6247743821732344,-993},{6574813630557765,-993},{6576779363148903,-993},{6578745095740041,-993},{8878062420473677,-993},
{4933567388657246,-992},{6083226051024064,-992},{6247743821732344,-992},{6412261592440624,-992},{6576779363148903,-992},{8219991337640560,-992},
{4685807866299258,-991},{5754190509607506,-991},{6412261592440624,-991},{6576779363148903,-991},{7399368216690300,-991},{7974197547873709,-991},
{4521290095590979,-990},{4685807866299258,-990},{6576779363148903,-990},{7193229570157167,-990},{7974197547873709,-990},{8632268630706827,-990},
{4521290095590978,-989},{6166467802673773,-989},{7193229570157167,-989},{7809679777165430,-989},{8219991337640560,-989},{8221957070231698,-989},
{5857259832874072,-988},{7193229570157166,-988},{7193229570157167,-988},{7809679777165430,-988},{8219991337640560,-988},{8221957070231698,-988},
{4572824757224262,-987},{5651121186340939,-987},{6525244701515619,-987},{6679848686415470,-987},{7193229570157166,-987},{7193229570157167,-987},
{4624359418857545,-986},{5653086918932077,-986},{6422175378249052,-986},{7193229570157167,-986},{8219991337640560,-986},{8477664645806977,-986},
{4624359418857545,-985},{6422175378249053,-985},{6807702474203109,-985},{7193229570157167,-985},{7450902878323584,-985},{8477664645806977,-985},
{4624359418857545,-984},{5716030946530327,-984},{6422175378249053,-984},{7193229570157167,-984},{7450902878323584,-984},{8477664645806977,-984},
{4624359418857546,-983},{5523267398553299,-983},{6681814419006608,-983},{7450902878323584,-983},{8219991337640560,-983},{8284901097829948,-983},
{4624359418857546,-982},{4819088699425712,-982},{5588177158742688,-982},{6454630258343747,-982},{8219991337640560,-982},{8284901097829948,-982},
{4624359418857546,-981},{4656814298952240,-981},{4819088699425712,-981},{6454630258343747,-981},{8219991337640560,-981},{8750582527725172,-981},
{4624359418857546,-980},{4656814298952240,-980},{4819088699425712,-980},{6454630258343747,-980},{8685672767535784,-980},{8983423242672784,-980},
{4586247984478101,-979},{4656814298952240,-979},{5750451559216160,-979},{8219991337640560,-979},{8918513482483395,-979},{8989079796957535,-979},
{4586247984478100,-978},{4586247984478101,-978},{4656814298952240,-978},{8219991337640560,-978},{8918513482483395,-978},{8989079796957535,-978},
{4528037805741198,-977},{4586247984478100,-977},{4656814298952240,-977},{8802093125009590,-977},{8860303303746492,-977},{8989079796957535,-977},
{4586247984478101,-976},{5750451559216160,-976},{5821017873690300,-976},{8802093125009589,-976},{8802093125009590,-976},{8872659439483729,-976},
{4511288852109983,-975},{5750451559216160,-975},{5821017873690300,-975},{8802093125009589,-975},{8802093125009590,-975},{8947618571851847,-975},
{5093390639479012,-974},{5821017873690300,-974},{7820894563297846,-974},{7966420010140103,-974},{8257470903824619,-974},{8802093125009590,-974},
{5093390639479013,-973},{5891584188164440,-973},{6947741882244301,-973},{7276272342112875,-973},{7675369116455588,-973},{8660960496061310,-973},
{4764860179610439,-972},{4929125409544726,-972},{6947741882244301,-972},{7675369116455588,-972},{8402996350666876,-972},{8660960496061310,-972},
{4929125409544726,-971},{6947741882244301,-971},{7675369116455588,-971},{7839634346389875,-971},{8402996350666876,-971},{8966358354943877,-971},
{5251872719166798,-970},{5738885258723156,-970},{6302247263000157,-970},{7675369116455588,-970},{8725743660288948,-970},{8966358354943877,-970},
{4612161250169155,-969},{5251872719166798,-969},{6149548333558874,-969},{7915983811110517,-969},{8966358354943876,-969},{8966358354943877,-969},
{5251872719166797,-968},{5251872719166798,-968},{6789259802556516,-968},{7109115537055337,-968},{8159490080888696,-968},{8966358354943877,-968},
{5251872719166797,-967},{5251872719166798,-967},{6789259802556516,-967},{7756055943861106,-967},{8806430487694466,-967},{8966358354943877,-967},
{4612161250169155,-966},{5251872719166798,-966},{6149548333558874,-966},{6211439922663261,-966},{8806430487694466,-966},{8966358354943876,-966},
{5251872719166798,-965},{6211439922663261,-965},{6949187669805926,-965},{7957773012374901,-965},{8486574753195645,-965},{8806430487694466,-965},
{5251872719166798,-964},{6580313796234594,-964},{6604822865770849,-964},{6949187669805926,-964},{8486574753195645,-964},{8806430487694466,-964},
{5227363649630541,-963},{5411800586416208,-963},{5780674459987541,-963},{5842566049091928,-963},{7686935416948592,-963},{8302137816409979,-963},
{4550888576328515,-962},{4735325513114182,-962},{4858489776059209,-962},{5780674459987541,-962},{8671011689981311,-962},{8978612889712005,-962},
{4550888576328515,-961},{4735325513114182,-961},{5780674459987541,-961},{6272712596503900,-961},{7256788869536620,-961},{8978612889712005,-961},
{4566206744788675,-960},{4735325513114182,-960},{5565601186281555,-960},{7471862143242606,-960},{7963900279758965,-960},{8978612889712005,-960},
{5073563049765195,-959},{5565601186281555,-959},{5780674459987541,-959},{5919156891392727,-959},{7963900279758966,-959},{8671011689981311,-959},
{5250340902320781,-958},{5565601186281555,-958},{6095934743948314,-958},{7118306438131433,-958},{7963900279758966,-958},{8671011689981311,-958},
{4896785197209609,-957},{5250340902320781,-957},{6607120591039874,-957},{7118306438131433,-957},{7452714432667406,-957},{8671011689981311,-957},
{4562377202673635,-956},{4943977533117582,-956},{7452714432667406,-956},{8170076638707379,-956},{8432342248321338,-956},{9005419684517285,-956},
{4609569538581609,-955},{7285510435399420,-955},{7452714432667406,-955},{7619918429935392,-955},{8170076638707379,-955},{8766750242857311,-955},
{4514507926235636,-954},{5589535824500554,-954},{7285510435399420,-954},{7452714432667406,-954},{8766750242857311,-954},{8933954240125298,-954},
{4514507926235635,-953},{4681711923503622,-953},{5852139904379528,-953},{7930730256517379,-953},{8766750242857311,-953},{8981485046298285,-953},
{4574344521783136,-952},{4741548519051122,-952},{4908752516319108,-952},{5852139904379528,-952},{8145465059958352,-952},{8981485046298284,-952},
{4741548519051122,-951},{4908752516319108,-951},{4908752516319109,-951},{6945118781308697,-951},{8145465059958352,-951},{8981485046298284,-951},
{4908752516319109,-950},{5926935648813902,-950},{6109098794968764,-950},{6945118781308696,-950},{6945118781308697,-950},{8130505911071477,-950},
{5926935648813902,-949},{6001731393248277,-949},{6109098794968764,-949},{6945118781308697,-949},{8252832461678839,-949},{8799321900143423,-949},
{4983548260753483,-948},{5090915662473970,-948},{6436027215061299,-948},{6945118781308697,-948},{8252832461678839,-948},{8799321900143423,-948},
{4581824096226573,-947},{4983548260753483,-947},{6436027215061299,-947},{6690572998184998,-947},{6945118781308697,-947},{8761924027926236,-947},
{4836369879350272,-946},{5090915662473970,-946},{6510822959495674,-946},{8507378244802537,-946},{8761924027926235,-946},{8761924027926236,-946},
{4836369879350272,-945},{5090915662473970,-945},{6363644578092462,-945},{8580967435504143,-945},{8761924027926236,-945},{8835513218627841,-945},
{5090915662473970,-944},{6363644578092462,-944},{8363216247731247,-944},{8617762030854946,-944},{8835513218627842,-944},{8872307813978645,-944},
{4562529823499572,-943},{6290055387390857,-943},{6326849982741659,-943},{6363644578092462,-943},{7599578898360152,-943},{8872307813978645,-943},
{4525735228148769,-942},{6326849982741659,-942},{6326849982741660,-942},{6363644578092462,-942},{7599578898360152,-942},{8872307813978645,-942},
{5699684173770114,-941},{6326849982741659,-941},{6326849982741660,-941},{6345247280417061,-941},{6363644578092462,-941},{8872307813978645,-941},
{4749736811475095,-940},{5376902620446640,-940},{6326849982741660,-940},{6345247280417061,-940},{6363644578092462,-940},{8872307813978645,-940},
{4507337930473367,-939},{4525735228148769,-939},{4749736811475095,-939},{6326849982741659,-939},{7922360451683626,-939},{8982528870442492,-939},
{4749736811475095,-938},{7124605217212642,-938},{7885565856332823,-938},{7922360451683625,-938},{7922360451683626,-938},{7940757749359027,-938},
{5148614428710587,-937},{7124605217212642,-937},{7523482834448134,-937},{7885565856332823,-937},{7922360451683625,-937},{7940757749359027,-937},
{5909575067830766,-936},{5927972365506168,-936},{7848771260982020,-936},{7922360451683626,-936},{7940757749359027,-936},{8032744237736034,-936},
{4939976971255140,-935},{5909575067830767,-935},{7922360451683626,-935},{7940757749359027,-935},{8032744237736034,-935},{8910355845934653,-935},
{4939976971255140,-934},{6971159652783400,-934},{7940757749359027,-934},{8416358148809140,-934},{8910355845934653,-934},{8910355845934654,-934},
{4939976971255140,-933},{5307922924763170,-933},{5909575067830767,-933},{6440367360307084,-933},{6971159652783400,-933},{8910355845934653,-933},
{4777130632286853,-932},{4939976971255140,-932},{5909575067830767,-932},{6440367360307083,-932},{7675361603120869,-932},{8910355845934653,-932},
{4939976971255140,-931},{5909575067830767,-931},{6440367360307083,-931},{6705763506545242,-931},{7675361603120869,-931},{8910355845934653,-931},
{4763926483670773,-930},{5909575067830767,-930},{6440367360307083,-930},{6705763506545242,-930},{7675361603120869,-930},{8910355845934653,-930},
{4679862484463413,-929},{4763926483670773,-929},{6440367360307084,-929},{6705763506545242,-929},{7851412090705235,-929},{8731664528627071,-929},
{4763926483670773,-928},{5029322629908931,-928},{6440367360307084,-928},{6705763506545242,-928},{7145889725506159,-928},{8731664528627071,-928},
{4763926483670773,-927},{5029322629908931,-927},{6705763506545242,-927},{6793128542906622,-927},{7145889725506159,-927},{8556934455904312,-927},
{5116687666270311,-926},{5204052702631691,-926},{6356303361099724,-926},{6793128542906622,-926},{8382204383181552,-926},{8556934455904311,-926},
{4767227520824793,-925},{5116687666270311,-925},{5204052702631691,-925},{6793128542906621,-925},{6793128542906622,-925},{7675031499405466,-925},
{4675736188020888,-924},{5204052702631691,-924},{6793128542906621,-924},{6793128542906622,-924},{7234080021156044,-924},{7587666463044087,-924},
{4688115077348463,-923},{5204052702631690,-923},{5998590622769156,-923},{6793128542906622,-923},{7587666463044087,-923},{8698654157086871,-923},
{4509258708183179,-922},{5998590622769156,-922},{6793128542906622,-922},{7587666463044087,-922},{8292776198598910,-922},{8877510526252155,-922},
{4509258708183179,-921},{5998590622769156,-921},{6793128542906622,-921},{7587666463044087,-921},{8292776198598910,-921},{8966938710834797,-921},
{4509258708183180,-920},{4777543261931105,-920},{7498238278461445,-920},{7766522832209371,-920},{8966938710834796,-920},{8966938710834797,-920},
{4553972800474500,-919},{7498238278461445,-919},{7520595324607105,-919},{7542952370752766,-919},{7565309416898427,-919},{8966938710834797,-919},
{5634857231918914,-918},{5657214278064575,-918},{7431167140024464,-918},{7520595324607105,-918},{7542952370752766,-918},{7654737601481068,-918},
{5657214278064574,-917},{5657214278064575,-917},{6588904801335840,-917},{7431167140024464,-917},{7542952370752766,-917},{8474642894024031,-917},
{4762932432238155,-916},{5657214278064575,-916},{6544190709044519,-916},{7654737601481068,-916},{8213663755122581,-916},{8429928801732710,-916},
{5157833447210451,-915},{5657214278064575,-915},{6208835016859612,-915},{7043571539898642,-915},{7654737601481068,-915},{8541714032461013,-915},
{5657214278064575,-914},{6044809878190396,-914},{6350392908981608,-914},{7654737601481068,-914},{8236131001669800,-914},{8541714032461013,-914},
{5157833447210451,-913},{5880784739521179,-913},{5962797308855788,-913},{6603736031831908,-913},{7736750170815676,-913},{8146813017488717,-913},
{5880784739521179,-912},{6003803593523091,-912},{7695743886148373,-912},{7736750170815677,-912},{8459701463126405,-912},{8582720317128317,-912},
{5880784739521179,-911},{5983300451189440,-911},{6808767455168428,-911},{7716247028482024,-911},{7736750170815677,-911},{8582720317128317,-911},
{5157833447210451,-910},{5675753316184659,-910},{5983300451189440,-910},{7736750170815676,-910},{7736750170815677,-910},{8254670039789885,-910},
{5675753316184659,-909},{5983300451189440,-909},{6706251743500168,-909},{6860025311002558,-909},{7736750170815676,-909},{7736750170815677,-909},
{5932042595355309,-908},{6008929379106504,-908},{6860025311002558,-908},{7711121242898612,-908},{7736750170815677,-908},{8510959318960535,-908},
{5145018983251918,-907},{5932042595355309,-907},{6834396383085493,-907},{6860025311002558,-907},{7711121242898612,-907},{7736750170815677,-907},
{5093761127417789,-906},{5157833447210451,-906},{6060187234940635,-906},{6834396383085493,-906},{7608605531230351,-906},{8575031638753197,-906},
{6060187234940635,-905},{6415255649116733,-905},{6834396383085493,-905},{7608605531230351,-905},{8155890904784437,-905},{8575031638753197,-905},
{4738692713241691,-904},{4916226920329740,-904},{6834396383085493,-904},{8155890904784437,-904},{8575031638753197,-904},{8930100052929295,-904},
{4738692713241690,-903},{5379415911168316,-903},{7742091481448585,-903},{7835529305821124,-903},{8155890904784437,-903},{8930100052929296,-903},
{4718668650318844,-902},{4738692713241690,-902},{7825517274359701,-902},{8402838742298057,-902},{8496276566670596,-902},{8930100052929296,-902},
{4573505898029322,-901},{4718668650318844,-901},{7825517274359701,-901},{8402838742298057,-901},{8826650197095332,-901},{8930100052929296,-901},
{4553481835106475,-900},{4625230825946304,-900},{5049042280743580,-900},{8072465111873321,-900},{8165902936245860,-900},{8826650197095333,-900},
{4542637418340120,-899},{4553481835106475,-899},{5049042280743580,-899},{8826650197095333,-899},{8898399187935161,-899},{8991837012307700,-899},
{4512185131303383,-898},{4542637418340120,-898},{4636075242712660,-898},{8485432149904241,-898},{8826650197095333,-898},{8991837012307700,-898},
{4512185131303383,-897},{4521989066438574,-897},{4636075242712660,-897},{8485432149904241,-897},{8826650197095333,-897},{8991837012307700,-897},
{4532833483204929,-896},{4542637418340120,-896},{5255525799759040,-896},{8072465111873321,-896},{8165902936245860,-896},{8888595252799971,-896},
{4532833483204929,-895},{4542637418340120,-895},{4739317002220390,-895},{8588673909411971,-895},{8682111733784510,-895},{8888595252799971,-895},
{4516826978463187,-894},{4542637418340120,-894},{4739317002220390,-894},{8846778308181296,-894},{8888595252799971,-894},{8940216132553835,-894},
{4516826978463187,-893},{4645879177847850,-893},{4997421400989715,-893},{7907798537476535,-893},{8072465111873321,-893},{8940216132553836,-893},
{4516826978463187,-892},{4516826978463188,-892},{4645879177847850,-892},{7907798537476535,-892},{8553059534399848,-892},{8793356745663112,-892},
{4516826978463188,-891},{4590256671908550,-891},{4848361070677874,-891},{4977413270062537,-891},{8148095748739799,-891},{8793356745663111,-891},
{4921790764123236,-890},{5364569868216524,-890},{6009830865139837,-890},{7983429174343014,-890},{8148095748739799,-890},{8793356745663112,-890},
{4921790764123236,-889},{6433702310016506,-889},{7724224303863130,-889},{8148095748739799,-889},{8369485300786443,-889},{8831172064096351,-889},
{5253875092193203,-888},{7724224303863131,-888},{8148095748739799,-888},{8369485300786443,-888},{8571967193616467,-888},{8904051521686433,-888},
{5309222480204864,-887},{5899136089116515,-887},{6323007533993183,-887},{7724224303863131,-887},{8314137912774782,-887},{8904051521686433,-887},
{4774656259304873,-886},{6028738524356457,-886},{7170750423746520,-886},{7724224303863130,-886},{8148095748739799,-886},{8848704133674773,-886},
{5336896174210694,-885},{6599744474051489,-885},{7170750423746520,-885},{8148095748739799,-885},{8286464218768951,-885},{8848704133674773,-885},
{5618016131663604,-884},{6599744474051489,-884},{6885247448899004,-884},{8148095748739799,-884},{8567584176221862,-884},{8848704133674773,-884},
{5336896174210694,-883},{6314241499203973,-883},{6599744474051488,-883},{6742495961475247,-883},{7741756373441552,-883},{8148095748739799,-883},
{5336896174210694,-882},{6314241499203973,-882},{6671120217763367,-882},{6742495961475247,-882},{7027998936322762,-882},{8148095748739799,-882},
{5336896174210694,-881},{6671120217763367,-881},{6671120217763368,-881},{7027998936322762,-881},{8041032133171981,-881},{8148095748739799,-881},
{5194144686786936,-880},{5372584046066634,-880},{5600484062085183,-880},{6671120217763367,-880},{7384877654882157,-880},{8504974467299194,-880},
{4544876600938569,-879},{5372584046066633,-879},{5372584046066634,-879},{6021852131915000,-879},{7612777670900707,-879},{8504974467299194,-879},
{5372584046066633,-878},{5372584046066634,-878},{6021852131915000,-878},{6346486174839184,-878},{7498827662891432,-878},{8618924475308469,-878},
{5372584046066633,-877},{6021852131915000,-877},{6346486174839184,-877},{7498827662891432,-877},{8545827133486226,-877},{8618924475308469,-877},
{4527660619834929,-876},{4964057384196318,-876},{5372584046066634,-876},{6995754260687551,-876},{8618924475308468,-876},{8618924475308469,-876},
{4779197320936869,-875},{5372584046066634,-875},{7933107718548980,-875},{8618924475308468,-875},{8618924475308469,-875},{8870461176410409,-875},
{4938303990409085,-874},{5372584046066634,-874},{7933107718548980,-874},{8401784447479694,-874},{8618924475308469,-874},{8870461176410409,-874},
{5189840691511026,-873},{6275540830654896,-873},{6447524197020728,-873},{6527077531756836,-873},{6606630866492945,-873},{7030150933960718,-873},
{5189840691511026,-872},{5229617358879080,-872},{5481154059981020,-872},{6447524197020728,-872},{6527077531756837,-872},{8076074405736534,-872},
{4706655622991172,-871},{4958192324093112,-871},{6487300864388782,-871},{6527077531756837,-871},{7824537704634593,-871},{8599036141624442,-871},
{5229617358879080,-870},{6487300864388782,-870},{6507189198072810,-870},{6527077531756836,-870},{6686184201229053,-870},{7824537704634593,-870},
{5219673192037066,-869},{5229617358879080,-869},{6487300864388782,-869},{6586742532808918,-869},{7814593537792580,-869},{7824537704634593,-869},
{4565971022177181,-868},{4575915189019195,-868},{5199784858353039,-868},{7824537704634593,-868},{7874258538844661,-868},{8468295707652465,-868},
{4565971022177181,-867},{4892822107107124,-867},{7180779701616722,-867},{7824537704634593,-867},{8468295707652464,-867},{8805090959424421,-867},
{4556026855335168,-866},{5546524276967009,-866},{5893263695580979,-866},{6190282279984881,-866},{7180779701616721,-866},{7774816870424525,-866},
{4556026855335168,-865},{5051275566151089,-865},{5496803442756941,-865},{6685530990800801,-865},{8171277123248563,-865},{8319786415450513,-865},
{4556026855335168,-864},{5051275566151089,-864},{5496803442756941,-864},{6685530990800801,-864},{8171277123248563,-864},{8889289772367409,-864},
{4927300085840046,-863},{5496803442756941,-863},{5695033569168960,-863},{5893263695580979,-863},{8740780480165458,-863},{8939010606577477,-863},
{4642548407381598,-862},{5496803442756941,-862},{5695033569168960,-862},{8654258928119029,-862},{8740780480165458,-862},{8740780480165459,-862},
{4642548407381598,-861},{5496803442756941,-861},{5695033569168960,-861},{8654258928119029,-861},{8740780480165459,-861},{8883156319394682,-861},
{4784924246610822,-860},{5496803442756941,-860},{7118791961461200,-860},{8740780480165458,-860},{8740780480165459,-860},{8939010606577477,-860},
{4784924246610822,-859},{5496803442756941,-859},{7118791961461200,-859},{8583071008504417,-859},{8740780480165458,-859},{8740780480165459,-859},
{4606954447574292,-858},{5339093971095900,-858},{5496803442756941,-858},{8405101209467887,-858},{8740780480165459,-858},{8918750279201988,-858},
{4517969548056027,-857},{4606954447574291,-857},{5339093971095900,-857},{8405101209467887,-857},{8740780480165459,-857},{8829765379683723,-857},
{4606954447574292,-856},{6071233494617509,-856},{7276501433122241,-856},{8583071008504417,-856},{8740780480165458,-856},{8898489951826500,-856},
{4671707224708913,-855},{5051878945165616,-855},{6673867463869875,-855},{8295855982574134,-855},{8740780480165458,-855},{8963242728961121,-855},
{5561556219891562,-854},{6673867463869875,-854},{8041017345211160,-854},{8263479594006823,-854},{8295855982574134,-854},{8485941842802486,-854},
{5561556219891562,-853},{5561556219891563,-853},{6928706101232848,-853},{7879135402374608,-853},{8041017345211160,-853},{8805533257300080,-853},
{4576664294594737,-852},{5561556219891562,-852},{5909351551780956,-852},{6928706101232848,-852},{8041017345211160,-852},{8805533257300080,-852},
{4576664294594736,-851},{4924459626484130,-851},{5196529575924636,-851},{6308840819902949,-851},{8041017345211160,-851},{8805533257300080,-851},
{4576664294594736,-850},{4576664294594737,-850},{4924459626484130,-850},{8660882626541060,-850},{8805533257300079,-850},{8805533257300080,-850},
{4576664294594736,-849},{4576664294594737,-849},{4924459626484130,-849},{8660882626541060,-849},{8805533257300080,-849},{8907105607865266,-849},
{4576664294594736,-848},{4576664294594737,-848},{5807779201215769,-848},{6495661969905795,-848},{6741884951230001,-848},{7922213682568441,-848},
{4576664294594736,-847},{4576664294594737,-847},{6249438988581589,-847},{6741884951230001,-847},{7480553895202621,-847},{7824495279547634,-847},
{4576664294594737,-846},{5018324081960556,-846},{5413051641588162,-846},{6155574533105162,-846},{6249438988581589,-846},{8270009014457834,-846},
{4576664294594737,-845},{4600130408463843,-845},{4994857968091449,-845},{6202506760843375,-845},{6249438988581589,-845},{8316941242196047,-845},
{4576664294594737,-844},{4994857968091449,-844},{5203954804839806,-844},{6249438988581589,-844},{8293475128326940,-844},{8316941242196047,-844},
{5203954804839806,-843},{6202506760843375,-843},{6249438988581588,-843},{7271457058454265,-843},{8270009014457834,-843},{8387339583803367,-843},
{5203954804839806,-842},{5227420918708913,-842},{6202506760843375,-842},{6249438988581588,-842},{6760448023517927,-842},{8270009014457834,-842},
{5203954804839806,-841},{5227420918708913,-841},{5714963839776144,-841},{6504943506049757,-841},{6760448023517927,-841},{7782466093390602,-841},
{4857208566987214,-840},{4924984173502531,-840},{6504943506049757,-840},{6690049681910607,-840},{7294923172323371,-840},{8522890796834000,-840},
{4554771821780832,-839},{4924984173502531,-839},{6992486427116989,-839},{7933684465993793,-839},{8723664132267407,-839},{8825327542040382,-839},
{4554771821780832,-838},{7143704799720180,-838},{7933684465993793,-838},{8648054945965812,-838},{8723664132267407,-838},{8976545914643573,-838},
{7068095613418584,-837},{7143704799720180,-837},{7219313986021776,-837},{8290869705979802,-837},{8648054945965812,-837},{8723664132267407,-837},
{6690049681910607,-836},{7068095613418584,-836},{7219313986021775,-836},{7294923172323371,-836},{7824187476434540,-836},{9005240185951821,-836},
{5584606158694922,-835},{7068095613418584,-835},{7219313986021775,-835},{8112277085986798,-835},{8929630999650225,-835},{9005240185951821,-835},
{7068095613418584,-834},{7219313986021775,-834},{8112277085986798,-834},{8187886272288394,-834},{8929630999650225,-834},{9005240185951821,-834},
{5192213091532820,-833},{5766455556621849,-833},{5933957818894652,-833},{6326350886056753,-833},{7824187476434540,-833},{8187886272288393,-833},
{5115635528223481,-832},{5766455556621848,-832},{6326350886056753,-832},{6508200283983680,-832},{7824187476434540,-832},{8838706300686761,-832},
{4790225514024297,-831},{5766455556621848,-831},{6651760900255937,-831},{7537066243890026,-831},{8278810971251857,-831},{8838706300686761,-831},
{5192213091532820,-830},{5766455556621849,-830},{5933957818894652,-830},{6651760900255937,-830},{7537066243890025,-830},{8111308708979054,-830},
{4952930521123889,-829},{5910016172894106,-829},{6651760900255937,-829},{7393505627617768,-829},{8135250354979600,-829},{8350591279387985,-829},
{4546168003374909,-828},{5910016172894106,-828},{6651760900255937,-828},{7393505627617768,-828},{8135250354979600,-828},{8757353797136965,-828},
{5359693038872869,-827},{6627819254255391,-827},{6651760900255937,-827},{7417447273618315,-827},{7943828761639005,-827},{8876995082341431,-827},
{5359693038872869,-826},{6460339306915343,-826},{6651760900255937,-826},{7584927220958363,-826},{8876995082341431,-826},{8960735056011455,-826},
{4851239891686644,-825},{6376599333245318,-825},{6651760900255937,-825},{7668667194628387,-825},{8960735056011455,-825},{8960735056011456,-825},
{6376599333245318,-824},{6397534326662824,-824},{6651760900255937,-824},{6905987473849050,-824},{7668667194628387,-824},{8960735056011456,-824},
{5126401458697262,-823},{6376599333245318,-823},{6397534326662824,-823},{6418469320080331,-823},{8939800062593950,-823},{8984899851339557,-823},
{5115933961988509,-822},{6376599333245318,-822},{6397534326662824,-822},{6397534326662825,-822},{8950267559302703,-822},{8984899851339557,-822},
{5115933961988509,-821},{6387066829954071,-821},{6397534326662825,-821},{7673900942982763,-821},{8950267559302703,-821},{8984899851339557,-821},
{6387066829954071,-820},{6387066829954072,-820},{6397534326662824,-820},{6402768075017201,-820},{6439404313497837,-820},{9005834844757063,-820},
{6360898088182189,-819},{6387066829954071,-819},{6387066829954072,-819},{6397534326662824,-819},{6402768075017201,-819},{6439404313497837,-819},
{4788991685376960,-818},{6360898088182189,-818},{6387066829954071,-818},{6439404313497837,-818},{7995609471239936,-818},{8000843219594313,-818},
{4809926678794465,-817},{6177716895779011,-817},{6308560604638424,-817},{6387066829954072,-817},{6413235571725954,-817},{6439404313497837,-817},
{4600576744619405,-816},{4731420453478818,-816},{5598496754374268,-816},{6387066829954072,-816},{7201805647305757,-816},{8016544464657443,-816},
{4600576744619405,-815},{4731420453478818,-815},{6387066829954072,-815},{7201805647305757,-815},{7596090685095658,-815},{8805114540237246,-815},
{4731420453478818,-814},{5125705491268719,-814},{5388269864593377,-814},{8200602612666452,-814},{8594887650456353,-814},{8805114540237246,-814},
{4599699789013573,-813},{4731420453478818,-813},{5125705491268719,-813},{5388269864593377,-813},{8410829502447344,-813},{8539919300095093,-813},
{4599699789013573,-812},{4731420453478818,-812},{5125705491268719,-812},{7096692202415311,-812},{7490977240205213,-812},{8804237584631414,-812},
{4599699789013573,-811},{4731420453478818,-811},{5125705491268719,-811},{6045338514609393,-811},{8542111689109673,-811},{8542330928011131,-811},
{5387831386790461,-810},{5651053476819491,-810},{5914275566848522,-810},{6045338514609393,-810},{6439623552399295,-810},{7885700755798030,-810},
{5651053476819491,-809},{5651053476819492,-809},{5914275566848522,-809},{6045338514609393,-809},{6439623552399295,-809},{7622478665768999,-809},
{4731146404851996,-808},{5651053476819492,-808},{6045338514609393,-808},{7359530624366790,-808},{7622478665768999,-808},{7754089710783514,-808},
{4599535359837480,-807},{4731146404851996,-807},{5651053476819491,-807},{5651053476819492,-807},{6309108701892069,-807},{7754089710783514,-807},
{4599535359837480,-806},{4731146404851996,-806},{5191099940835743,-806},{5651053476819492,-806},{6702571593801503,-806},{7754089710783514,-806},
{4599535359837480,-805},{4961123172843870,-805},{5191099940835743,-805},{5651053476819492,-805},{7754089710783514,-805},{9002339273720243,-805},
{4599535359837480,-804},{4961123172843870,-804},{5076111556839806,-804},{5651053476819492,-804},{8903973550742884,-804},{9002339273720243,-804},
{4599535359837480,-803},{5076111556839806,-803},{6800937316778862,-803},{7852455433760873,-803},{8903973550742884,-803},{8903973550742885,-803},
{5076111556839806,-802},{5363582516829649,-802},{6800937316778862,-802},{7852455433760873,-802},{8714868313730401,-802},{8903973550742884,-802},
{5076111556839806,-801},{6415100633811660,-801},{6800937316778862,-801},{7470431855264789,-801},{7757902815254631,-801},{7852455433760873,-801},
{5170664175346049,-800},{5363582516829649,-800},{6415100633811660,-800},{6800937316778862,-800},{8045373775244473,-800},{8971834437951311,-800},
{5363582516829649,-799},{6415100633811660,-799},{6608018975295261,-799},{6800937316778862,-799},{8045373775244473,-799},{8667592004477280,-799},
{5674691631446052,-798},{6415100633811660,-798},{6608018975295261,-798},{6800937316778862,-798},{8356482889860876,-798},{8667592004477280,-798},
{4859555060729646,-797},{5052473402213246,-797},{5643427267877258,-797},{6608018975295261,-797},{7572610682713264,-797},{8356482889860876,-797},
{5052473402213246,-796},{5643427267877258,-796},{5830246188754254,-796},{6608018975295261,-796},{8356482889860876,-796},{8742319572828078,-796},
{5058572822819851,-795},{5830246188754254,-795},{6608018975295261,-795},{7093364539307565,-795},{8356482889860876,-795},{8742319572828078,-795},
{5830246188754254,-794},{6315591752766558,-794},{6608018975295261,-794},{6900446197823964,-794},{7093364539307565,-794},{8356482889860876,-794},
{4809800620207094,-793},{6315591752766557,-793},{6900446197823964,-793},{8113810107854725,-793},{8157465127770671,-793},{8362582310467482,-793},
{4809800620207094,-792},{6315591752766557,-792},{6900446197823964,-792},{7528955662797318,-792},{8113810107854725,-792},{8991091775440835,-792},
{4809800620207094,-791},{5124055352693771,-791},{6012250775258867,-791},{6900446197823964,-791},{8113810107854725,-791},{8991091775440835,-791},
{4809800620207094,-790},{5752564817667124,-790},{6012250775258867,-790},{6271936732850611,-790},{6900446197823965,-790},{8362582310467482,-790},
{4809800620207094,-789},{6012250775258867,-789},{6012250775258868,-789},{6271936732850611,-789},{7658798641593190,-789},{8102896352875738,-789},
{4809800620207094,-788},{6012250775258867,-788},{6012250775258868,-788},{6142093754054739,-788},{6835524708426029,-788},{8102896352875738,-788},
{5622721838871252,-787},{6012250775258867,-787},{6077172264656804,-787},{6271936732850611,-787},{7973053374079866,-787},{8362582310467482,-787},
{5947329285860932,-786},{6012250775258867,-786},{6044711519957836,-786},{6271936732850611,-786},{8005514118778834,-786},{8037974863477802,-786},
{5947329285860932,-785},{6012250775258867,-785},{6028481147608352,-785},{6109633009355771,-785},{8021744491128318,-785},{8037974863477802,-785},
{5947329285860932,-784},{6012250775258867,-784},{6020365961433610,-784},{6028481147608351,-784},{8021744491128318,-784},{8037974863477802,-784},
{5947329285860932,-783},{5987905216734641,-783},{6028481147608352,-783},{6353088594598031,-783},{7997398932604092,-783},{8200278586972642,-783},
{5947329285860932,-782},{6008193182171496,-782},{6028481147608352,-782},{6150208940229481,-782},{8017686898040947,-782},{8200278586972642,-782},
{5947329285860932,-781},{6008193182171496,-781},{6018337164889924,-781},{6048769113045206,-781},{8027830880759375,-781},{8098838759788367,-781},
{5541569977123832,-780},{5947329285860931,-780},{5998049199453069,-780},{6048769113045206,-780},{8048118846196230,-780},{8403158241341192,-780},
{4998374332877557,-779},{5998049199453069,-779},{6048769113045206,-779},{6302368681005894,-779},{7642359537459130,-779},{8048118846196230,-779},
{4998374332877558,-778},{5251973900838245,-778},{6048769113045206,-778},{6523246589536894,-778},{7522921456112405,-778},{8522596322687916,-778},
{4998374332877557,-777},{5251973900838245,-777},{6048769113045206,-777},{6048769113045207,-777},{7642359537459130,-777},{8946353885587466,-777},
{6048769113045206,-776},{6048769113045207,-776},{7234962804274424,-776},{7642359537459130,-776},{7760160194358248,-776},{8674756063464329,-776},
{6048769113045206,-775},{6379267263617903,-775},{6904464653701728,-775},{7760160194358248,-775},{7760160194358249,-775},{8674756063464329,-775},
{6904464653701727,-774},{6904464653701728,-774},{7332312424029988,-774},{7760160194358249,-774},{8674756063464329,-774},{8713205354770333,-774},
{4839671601691329,-773},{6904464653701728,-773},{7332312424029988,-773},{7434567609747763,-773},{7760160194358248,-773},{8851457048813007,-773},
{4706325473610866,-772},{6904464653701728,-772},{7332312424029988,-772},{7760160194358248,-772},{8423609278484747,-772},{8851457048813007,-772},
{4706325473610866,-771},{5499234318022491,-771},{5927082088350751,-771},{8490282342524978,-771},{8737542759709225,-771},{8918130112853239,-771},
{4706325473610865,-770},{5134173243939126,-770},{5923195720555415,-770},{6417716554923908,-770},{8062434572196718,-770},{8737542759709225,-770},
{4582695265018742,-769},{5010543035347003,-769},{6170456137739661,-769},{6417716554923908,-769},{8309694989380964,-769},{8737542759709225,-769},
{4582695265018742,-768},{6170456137739661,-768},{6294086346331785,-768},{6660119012363984,-768},{7087966782692244,-768},{8309694989380964,-768},
{6170456137739661,-767},{6170456137739662,-767},{6788607180700277,-767},{7815174155012472,-767},{8371510093677025,-767},{8433325197973087,-767},
{5193559368363103,-766},{5861380616259354,-766},{6170456137739661,-766},{7332798220004405,-766},{8371510093677025,-766},{8742400719453395,-766},
{4884483846882795,-765},{5193559368363102,-765},{5193559368363103,-765},{7821246604692684,-765},{8742400719453395,-765},{8859958478365305,-765},
{5193559368363102,-764},{5468691112855273,-764},{5682007753051382,-764},{6507402986527893,-764},{8584826733873135,-764},{8921773582661367,-764},
{4705110983674823,-763},{5193559368363103,-763},{5682007753051382,-763},{7057666475512234,-763},{8124249676492779,-763},{8921773582661367,-763},
{5193559368363103,-762},{5283245799967088,-762},{5682007753051382,-762},{6125612921937668,-762},{8478168413775080,-762},{8921773582661367,-762},
{5659586145150386,-761},{5682007753051382,-761},{6125612921937668,-761},{7102509691314227,-761},{8012141636987797,-761},{8921773582661367,-761},
{5682007753051382,-760},{6591639698724951,-760},{7102509691314227,-760},{7102509691314228,-760},{7675817518472850,-760},{8012141636987797,-760},
{5682007753051382,-759},{6591639698724951,-759},{6847074695019590,-759},{7102509691314227,-759},{7389163604893539,-759},{8012141636987797,-759},
{5682007753051382,-758},{6719357196872270,-758},{6847074695019590,-758},{7102509691314227,-758},{8012141636987797,-758},{8666338586366729,-758},
{6463922200577632,-757},{7102509691314227,-757},{7102509691314228,-757},{7884424138840478,-757},{8236357715997762,-757},{8952992499946040,-757},
{5362714007683084,-756},{7102509691314227,-756},{7884424138840478,-756},{8027751095630134,-756},{8203717884208776,-756},{8236357715997762,-756},
{4580799560156834,-755},{5362714007683084,-755},{7102509691314227,-755},{7333820042393204,-755},{7565130393472181,-755},{8754321980656050,-755},
{4580799560156834,-754},{4812109911235810,-754},{5362714007683084,-754},{7058517994169567,-754},{7565130393472181,-754},{8754321980656050,-754},
{5274730613393764,-753},{6177268286998321,-753},{6188620152353995,-753},{7333820042393204,-753},{8236357715997762,-753},{8479019932432413,-753},
{5274730613393764,-752},{5500365031794903,-752},{5725999450196042,-752},{6188620152353995,-752},{7785088879195483,-752},{8479019932432413,-752},
{4583637526495752,-751},{5274730613393764,-751},{5500365031794903,-751},{5951633868597182,-751},{7559454460794343,-751},{8479019932432413,-751},
{4583637526495752,-750},{4795082113202299,-750},{5500365031794903,-750},{6205647950387507,-750},{7559454460794344,-750},{7756709215806298,-750},
{4583637526495752,-749},{4583637526495753,-749},{4795082113202299,-749},{5500365031794903,-749},{5711809618501450,-749},{8821728509542500,-749},
{4583637526495752,-748},{4583637526495753,-748},{5500365031794903,-748},{6522814830447327,-748},{7439542335746477,-748},{7619410523318277,-748},
{4583637526495752,-747},{4583637526495753,-747},{5112248993262120,-747},{5500365031794903,-747},{5606087325148176,-747},{8761772447018567,-747},
{4583637526495752,-746},{4583637526495753,-746},{4601024093935908,-746},{5094862425821964,-746},{5500365031794903,-746},{8506159997355461,-746},
{4583637526495752,-745},{4583637526495753,-745},{4601024093935908,-745},{4839249976158858,-745},{5500365031794903,-745},{8378353772523908,-745},
{4583637526495752,-744},{4583637526495753,-744},{4601024093935908,-744},{4711443751327305,-744},{5500365031794903,-744},{7397723154808981,-744},
{4519734414079976,-743},{4560150706305132,-743},{4583637526495752,-743},{4601024093935908,-743},{4711443751327306,-743},{8987309125839486,-743},
{4537120981520131,-742},{4583637526495752,-742},{4601024093935908,-742},{6907407845951517,-742},{6971310958367294,-742},{8987309125839486,-742},
{4537120981520131,-741},{4583637526495752,-741},{4601024093935908,-741},{6907407845951517,-741},{8101244561887288,-741},{8934920875816210,-741},
{4792733431183237,-740},{5112248993262120,-740},{5649668017599970,-740},{5713571130015746,-740},{5841377354847300,-740},{8807114650984657,-740},
{5202346230689535,-739},{5713571130015746,-739},{5841377354847299,-739},{6160892916926182,-739},{8602308251231508,-739},{8666211363647285,-739},
{5841377354847299,-738},{6160892916926182,-738},{7189891246831515,-738},{8282792689152626,-738},{8602308251231508,-738},{8666211363647285,-738},
{5841377354847299,-737},{5841377354847300,-737},{6365699316679331,-737},{7062085021999962,-737},{7438955165241712,-737},{8602308251231508,-737},
{4911507959192085,-736},{5579216373931284,-736},{5841377354847299,-736},{6451731188423631,-736},{7991954417655177,-736},{8225438107989759,-736},
{4649346978276070,-735},{4911507959192086,-735},{5376442657019692,-735},{5841377354847299,-735},{6451731188423631,-735},{7991954417655177,-735},
{4649346978276070,-734},{5376442657019692,-734},{5376442657019693,-734},{5841377354847299,-734},{6451731188423631,-734},{8834775600145312,-734},
{4649346978276070,-733},{4733346167178813,-733},{5143975308105889,-733},{5376442657019692,-733},{5841377354847300,-733},{8749760069821790,-733},
{4649346978276070,-732},{4881814327189873,-732},{5841377354847300,-732},{7948430311072637,-732},{8180897659986440,-732},{8749760069821790,-732},
{4649346978276070,-731},{4881814327189873,-731},{5841377354847300,-731},{7948430311072637,-731},{8180897659986440,-731},{8675525989816260,-731},
{4649346978276070,-730},{5811683722845087,-730},{6546202809589263,-730},{6778670158503066,-730},{6815787198505832,-730},{7243604856330674,-730},
{6313735460675460,-729},{6546202809589263,-729},{6778670158503066,-729},{7243604856330674,-729},{7476072205244477,-729},{8638408949813494,-729},
{5258353130562653,-728},{6313735460675460,-728},{6778670158503066,-728},{7476072205244477,-728},{8531454535357284,-728},{8638408949813494,-728},
{5025885781648849,-727},{6062709591760273,-727},{6313735460675459,-727},{6313735460675460,-727},{8763921884271088,-727},{8862082887623129,-727},
{5025885781648849,-726},{6188222526217866,-726},{6313735460675460,-726},{7538828672473273,-726},{8763921884271088,-726},{8987595822080722,-726},
{5025885781648849,-725},{6188222526217866,-725},{6250978993446663,-725},{6313735460675460,-725},{7538828672473273,-725},{8151375278372181,-725},
{4581222107702145,-724},{6188222526217867,-724},{6313735460675459,-724},{6376491927904256,-724},{8662566764866575,-724},{8725323232095371,-724},
{4581222107702145,-723},{4719612478699395,-723},{7782345508193931,-723},{7845101975422727,-723},{8912505490135432,-723},{8975261957364228,-723},
{4719612478699395,-722},{7719589040965134,-722},{7782345508193930,-722},{7845101975422727,-722},{7907858442651524,-722},{8579406999181963,-722},
{4719612478699395,-721},{7719589040965134,-721},{7782345508193930,-721},{7845101975422727,-721},{7907858442651524,-721},{8977937744675979,-721},
{5915204715181443,-720},{7405806704821151,-720},{7719589040965134,-720},{7782345508193931,-720},{7845101975422727,-720},{8033371377109117,-720},
{4918877851446403,-719},{5789691780723850,-719},{7719589040965134,-719},{7845101975422727,-719},{8033371377109117,-719},{8778672371928971,-719},
{4918877851446403,-718},{5789691780723850,-718},{6911531578916484,-718},{7719589040965134,-718},{7845101975422727,-718},{8778672371928971,-718},
{5789691780723850,-717},{6911531578916483,-717},{7539096251204449,-717},{7719589040965134,-717},{8280508940061451,-717},{8841428839157767,-717},
{5666122999247683,-716},{5789691780723850,-716},{6664394015964150,-716},{7596020259488967,-716},{7719589040965134,-716},{8280508940061451,-716},
{5043418709413283,-715},{5789691780723850,-715},{7596020259488967,-715},{7719589040965134,-715},{8156940158585284,-715},{8903213229895851,-715},
{5043418709413283,-714},{5352340663103701,-714},{6227042898344000,-714},{6407535688104685,-714},{7539096251204449,-714},{8903213229895851,-714},
{5043418709413283,-713},{5918120944653583,-713},{6973315969654567,-713},{8028510994655551,-713},{8530076694240567,-713},{8903213229895851,-713},
{5043418709413283,-712},{5107633291378150,-712},{6973315969654567,-712},{7751696331947567,-712},{8838998647930984,-712},{8903213229895851,-712},
{4654228528266783,-711},{6568072143016850,-711},{6973315969654567,-711},{7378559796292284,-711},{7751696331947567,-711},{8903213229895851,-711},
{5352340663103701,-710},{5432608890559783,-710},{7378559796292284,-710},{8028510994655551,-710},{8514023048749351,-710},{8919266875387067,-710},
{5027365063922067,-709},{5432608890559783,-709},{7378559796292284,-709},{7703535395473917,-709},{7946291422520817,-709},{8514023048749351,-709},
{4946121164126658,-708},{5027365063922067,-708},{7378559796292284,-708},{7541047595883100,-708},{7946291422520817,-708},{9000510775182476,-708},
{4864877264331250,-707},{4946121164126658,-707},{5514828462694518,-707},{7053584197110650,-707},{7541047595883101,-707},{7866023195064734,-707},
{5108608963717475,-706},{6162340480209471,-706},{6243584380004880,-706},{7053584197110650,-706},{7459803696087692,-706},{8676023012170504,-706},
{5108608963717475,-705},{6081096580414063,-705},{6162340480209471,-705},{6243584380004880,-705},{6811072088148581,-705},{7459803696087692,-705},
{4542340845997931,-704},{4702389464740433,-704},{5108608963717476,-704},{6081096580414062,-704},{6893535578368147,-704},{7053584197110650,-704},
{4622365155369182,-703},{4662377310054808,-703},{5148621118403101,-703},{6081096580414062,-703},{6973559887739398,-703},{7053584197110650,-703},
{4622365155369182,-702},{4662377310054807,-702},{4662377310054808,-702},{5371736945234435,-702},{6304212407245396,-702},{7053584197110650,-702},
{4662377310054807,-701},{4662377310054808,-701},{5817968598897103,-701},{6415770320661063,-701},{7348245782672025,-701},{8169163331267320,-701},
{4662377310054808,-700},{5260179031818768,-700},{5777956444211477,-700},{5817968598897103,-700},{5857980753582729,-700},{6415770320661063,-700},
{4662377310054808,-699},{5260179031818768,-699},{5539073815357935,-699},{5817968598897103,-699},{5857980753582729,-699},{8726952898345654,-699},
{4662377310054808,-698},{4821830779167204,-698},{5100725562706371,-698},{5817968598897103,-698},{7292466825964192,-698},{8726952898345654,-698},
{5100725562706371,-697},{5817968598897103,-697},{6575223789773460,-697},{7372491135335443,-697},{8726952898345654,-697},{8726952898345655,-697},
{5100725562706371,-696},{5479353158144550,-696},{5817968598897103,-696},{8049722016840549,-696},{8726952898345654,-696},{8726952898345655,-696},
{4552790246891917,-695},{4931417842330095,-695},{5100725562706371,-695},{5817968598897103,-695},{8388337457593102,-695},{8726952898345654,-695},
{4940676943963869,-694},{5479353158144550,-694},{5648660878520826,-694},{6495199480402209,-694},{8049722016840549,-694},{8726952898345655,-694},
{5648660878520826,-693},{5648660878520827,-693},{7018499168056964,-693},{7187806888433241,-693},{7341738082283591,-693},{8896260618721931,-693},
{5648660878520826,-692},{5648660878520827,-692},{6418233883477034,-692},{7788072173013171,-692},{8542268651443452,-692},{8896260618721931,-692},
{5048395593940896,-691},{5648660878520826,-691},{5648660878520827,-691},{6033447380998930,-691},{8172858675491275,-691},{8295995334142000,-691},
{4725239644009816,-690},{5648660878520826,-690},{6495199480402209,-690},{8172858675491275,-690},{8773123960071205,-690},{9003979268698958,-690},
{4602102985359090,-689},{6372062821751483,-689},{6910759777006050,-689},{8172858675491275,-689},{8773123960071205,-689},{9003979268698958,-689},
{4540534656033727,-688},{6310494492426120,-688},{7541809226248662,-688},{8172858675491275,-688},{8773123960071205,-688},{9003979268698958,-688},
{4663671314684453,-687},{6248926163100757,-687},{6279710327763438,-687},{6341278657088802,-687},{6556767809727572,-687},{8757705951397506,-687},
{4763655033982272,-686},{6095005339787350,-686},{6402846986414164,-686},{6556767809727572,-686},{7826549786207287,-686},{7857333950869968,-686},
{4763655033982271,-685},{7734197292219243,-685},{7857333950869968,-685},{7888118115532650,-685},{8615361597760552,-685},{8646145762423234,-685},
{4763655033982272,-684},{5071496680609086,-684},{6248926163100757,-684},{7068522139316703,-684},{7426355645592428,-684},{8195959762159465,-684},
{5071496680609086,-683},{5096492610433541,-683},{5916088586649488,-683},{7068522139316703,-683},{7222442962630111,-683},{8399872445121782,-683},
{4584738280844409,-682},{5096492610433541,-682},{6492305362983096,-682},{6735684562865434,-682},{7068522139316703,-682},{8886630844886459,-682},
{4808384222266737,-681},{6005546963218419,-681},{6492305362983095,-681},{6735684562865434,-681},{6780413751149900,-681},{7068522139316703,-681},
{4808384222266737,-680},{6005546963218419,-680},{6492305362983096,-680},{7222442962630111,-680},{7932847303817115,-680},{8439338962041803,-680},
{4808384222266737,-679},{6005546963218419,-679},{6492305362983096,-679},{7212576333400105,-679},{7222442962630111,-679},{8419605703581792,-679},
{4808384222266737,-678},{6015413592448424,-678},{6852440848191601,-678},{7212576333400105,-678},{7212576333400106,-678},{8419605703581792,-678},
{4798517593036732,-677},{4808384222266737,-677},{5411898907357581,-677},{7212576333400105,-677},{7222442962630111,-677},{8459072220501814,-677},
{4798517593036732,-676},{4808384222266737,-676},{7212576333400105,-676},{7816091018490949,-676},{8459072220501814,-676},{8716429731512212,-676},
{4798517593036732,-675},{4808384222266737,-675},{7212576333400105,-675},{7816091018490949,-675},{7964503032456159,-675},{8755896248432233,-675},
{5392165648897570,-674},{7816091018490949,-674},{7964503032456159,-674},{8112915046421368,-674},{8261327060386577,-674},{8755896248432233,-674},
{6084686284816026,-673},{6233098298781235,-673},{7074030948664901,-673},{7816091018490949,-673},{7964503032456159,-673},{8558151088316997,-673},
{5070571904013355,-672},{6233098298781236,-672},{7074030948664901,-672},{7816091018490949,-672},{7964503032456159,-672},{8978617413258829,-672},
{5070571904013355,-671},{6653564623723068,-671},{7816091018490949,-671},{7964503032456159,-671},{8978617413258829,-671},{8978617413258830,-671},
{5070571904013355,-670},{5169444484070973,-670},{5280805066484272,-670},{5491038228955188,-670},{8558151088316997,-670},{8978617413258829,-670},
{5169444484070973,-669},{5491038228955188,-669},{7129711239871551,-669},{8292237634639431,-669},{8558151088316997,-669},{8978617413258829,-669},
{4804658450335789,-668},{5491038228955188,-668},{5518878374558513,-668},{8292237634639431,-668},{8558151088316997,-668},{8978617413258829,-668},
{5447845940104219,-667},{6681404769326393,-667},{6863797786193985,-667},{7367784547945791,-667},{8279749632283751,-667},{8740544105184589,-667},
{4713461941901994,-666},{6359811024442178,-666},{6681404769326393,-666},{6863797786193985,-666},{7367784547945791,-666},{7367784547945792,-666},
{5354243466304494,-665},{5399841720521392,-665},{6040623244923893,-665},{7367784547945791,-665},{7367784547945792,-665},{8831740613618384,-665},
{4799846519603932,-664},{5855824262690372,-664},{6131819753357689,-664},{6635806515109495,-664},{7367784547945791,-664},{8375758071449405,-664},
{5123846229854075,-663},{5855824262690372,-663},{7367784547945791,-663},{7985766945239843,-663},{8375758071449405,-663},{8717744978076140,-663},
{6017824117815444,-662},{6749802150651740,-662},{7367784547945791,-662},{7481780183488036,-662},{8042764763010966,-662},{8660747160305017,-662},
{6017824117815444,-661},{6749802150651740,-661},{7481780183488036,-661},{7705274655478378,-661},{8042764763010966,-661},{8998237267837604,-661},
{4553868052142851,-660},{5794329645825102,-660},{7705274655478378,-660},{8213758216324333,-660},{8660747160305017,-660},{8744725772641027,-660},
{4553868052142851,-659},{5906076881820273,-659},{6861549386646911,-659},{7705274655478378,-659},{8437252688314675,-659},{8968220244631369,-659},
{4553868052142851,-658},{5118225230986391,-658},{6861549386646911,-658},{7705274655478378,-658},{8548999924309846,-658},{8968220244631369,-658},
{4665615288138022,-657},{8213758216324333,-657},{8493126306312261,-657},{8604873542307431,-657},{8660747160305017,-657},{8968220244631369,-657},
{4665615288138022,-656},{6411749943232385,-656},{6467623561229970,-656},{8213758216324333,-656},{8493126306312260,-656},{8604873542307431,-656},
{4665615288138022,-655},{5371061761692446,-655},{6411749943232385,-655},{7508311742769908,-655},{8213758216324333,-655},{8493126306312260,-655},
{5482808997687617,-654},{5783087648089732,-654},{6579370797225141,-654},{7375653946360550,-654},{8171937095495960,-654},{8493126306312261,-654},
{5482808997687618,-653},{5891405852462415,-653},{6987967651999939,-653},{7375653946360550,-653},{8472215745898074,-653},{8493126306312261,-653},
{5482808997687618,-652},{5891405852462415,-652},{6987967651999939,-652},{7525793271561607,-652},{8288827878924862,-652},{8622355071099131,-652},
{5482808997687618,-651},{7090116865693638,-651},{7600862934162136,-651},{8186678665231162,-651},{8288827878924862,-651},{8697424733699659,-651},
{4896993266618592,-650},{5482808997687618,-650},{6354161809423555,-650},{7090116865693638,-650},{7600862934162136,-650},{8186678665231162,-650},
{5482808997687618,-649},{5918485403555586,-649},{7090116865693638,-649},{7600862934162136,-649},{8186678665231162,-649},{8990332599234173,-649},
{5700647200621602,-648},{5918485403555586,-648},{7090116865693638,-648},{7383024731228152,-648},{8040224732463906,-648},{8186678665231162,-648},
{4671784278817006,-647},{4968377536785320,-647},{5918485403555586,-647},{8115294395064434,-647},{8333132597998418,-647},{8411887653032748,-647},
{4750539333851335,-646},{5225593267236469,-646},{5918485403555586,-646},{8333132597998418,-646},{8333132597998419,-646},{8808186531383552,-646},
{4750539333851335,-645},{5354201132462043,-645},{5829255065847176,-645},{6779362932617444,-645},{7125809000777002,-645},{8333132597998419,-645},
{5354201132462043,-644},{5839730348521257,-644},{7086431473259838,-644},{7729470799387711,-644},{8333132597998418,-644},{8333132597998419,-644},
{5314823604944878,-643},{5354201132462043,-643},{7086431473259838,-643},{7729470799387711,-643},{8031301698693064,-643},{8333132597998419,-643},
{5052370233156689,-642},{5354201132462043,-642},{6823978101471648,-642},{7880386249040388,-642},{8031301698693064,-642},{8333132597998419,-642},
{5052370233156689,-641},{5278743407635704,-641},{7578555349735033,-641},{7880386249040388,-641},{7955843973866726,-641},{8333132597998419,-641},
{5429658857288381,-640},{5577276976733068,-640},{6069400853208263,-640},{7053648606158655,-640},{7578555349735034,-640},{7955843973866726,-640},
{4675081609024996,-639},{5429658857288381,-639},{5577276976733068,-639},{6504107103511708,-639},{7955843973866726,-639},{8447967850341922,-639},
{5372241231116630,-638},{5966882980400044,-638},{6504107103511708,-638},{7258684351775093,-638},{7955843973866726,-638},{8653003595958359,-638},
{5966882980400044,-637},{6848612860542217,-637},{6971596220916335,-637},{7955843973866726,-637},{8653003595958359,-637},{8653003595958360,-637},
{5320982294712521,-636},{5556811489167169,-636},{5966882980400044,-636},{7955843973866726,-636},{8263397592291383,-636},{8653003595958359,-636},
{4910910803479645,-635},{5643932637556283,-635},{5966882980400044,-635},{7955843973866726,-635},{8653003595958359,-635},{8909298277978907,-635},
{4521304799812668,-634},{4587960460635882,-634},{5556811489167169,-634},{7361202224583311,-634},{8263397592291383,-634},{8975953938802122,-634},
{4521304799812668,-633},{4587960460635882,-633},{5556811489167169,-633},{8263397592291383,-633},{8975953938802121,-633},{8975953938802122,-633},
{4521304799812668,-632},{4602042385523608,-632},{4749435632057764,-632},{8263397592291383,-632},{8975953938802121,-632},{8975953938802122,-632},
{4844255142656430,-631},{5033894163853763,-631},{5247943071211132,-631},{5556811489167169,-631},{6553826367473906,-631},{8975953938802122,-631},
{5093508862233114,-630},{5497196790787817,-630},{6055318928320538,-630},{6553826367473906,-630},{8572266010247419,-630},{8975953938802122,-630},
{6553826367473906,-629},{6631043471962916,-629},{7438419329072320,-629},{7842107257627023,-629},{8323012290670735,-629},{8572266010247419,-629},
{5458588238543313,-628},{6553826367473906,-628},{7438419329072321,-628},{7842107257627023,-628},{8572266010247419,-628},{8610874562491923,-628},
{6304572647897222,-627},{6939911889918952,-627},{6996122848273114,-627},{7438419329072320,-627},{8186180487802374,-627},{8821519729824103,-627},
{4507281245523313,-626},{4728429485922917,-626},{7245376567849798,-626},{7438419329072320,-626},{8793414250647023,-626},{8821519729824103,-626},
{4507281245523313,-625},{4728429485922917,-625},{6774974607873510,-625},{7438419329072320,-625},{8115916789859672,-625},{8351117769847815,-625},
{4728429485922916,-624},{6304572647897222,-624},{6610037325828068,-624},{7245376567849798,-624},{7880715809871528,-624},{8115916789859672,-624},
{4846029975916988,-623},{5434032425887348,-623},{6422173137891294,-623},{7245376567849798,-623},{7880715809871528,-623},{8115916789859672,-623},
{4846029975916988,-622},{4846029975916989,-622},{6422173137891294,-622},{6657374117879438,-622},{8115916789859672,-622},{8468718259841887,-622},
{4846029975916988,-621},{5434032425887348,-621},{6116708459960448,-621},{6363372892894258,-621},{7245376567849798,-621},{8174717034856708,-621},
{4846029975916988,-620},{5434032425887348,-620},{6363372892894258,-620},{7245376567849798,-620},{7586714584886348,-620},{8174717034856708,-620},
{4699029363424399,-619},{4846029975916988,-619},{6436873199140553,-619},{6510373505386848,-619},{8101216728610413,-619},{8321717647349297,-619},
{5066530894655873,-618},{6473623352263700,-618},{6510373505386848,-618},{7954216116117823,-618},{8064466575487265,-618},{8101216728610413,-618},
{5066530894655874,-617},{5801533957118823,-617},{6510373505386848,-617},{7219213053654873,-617},{7770465350502085,-617},{7954216116117822,-617},
{4882780129040136,-616},{5066530894655874,-616},{5801533957118823,-616},{8584262038675441,-616},{8768012804291178,-616},{8846806430001585,-616},
{4659632550569196,-615},{4882780129040136,-615},{4987737268945467,-615},{8177363694588763,-615},{8768012804291178,-615},{8846806430001585,-615},
{4580838924858790,-614},{4672865849229473,-614},{8033009741828229,-614},{8137966881733560,-614},{8242924021638891,-614},{8846806430001584,-614},
{4580838924858790,-613},{4672865849229473,-613},{6103475161300170,-613},{6208432301205501,-613},{8033009741828229,-613},{8643357257958245,-613},
{4577606370975128,-612},{5086229301083475,-612},{5191186440988806,-612},{7015763881611534,-612},{8643357257958245,-612},{8745081843979915,-612},
{4577606370975128,-611},{5086229301083475,-611},{7015763881611533,-611},{7225678161422196,-611},{7524386811719881,-611},{8033009741828229,-611},
{4577606370975128,-610},{5086229301083475,-610},{7629343951625212,-610},{8033009741828229,-610},{8339799776835068,-610},{8848422706943415,-610},
{4577606370975128,-609},{5086229301083475,-609},{7629343951625212,-609},{7831176846726721,-609},{8238883329284314,-609},{8747506259392661,-609},
{4577606370975128,-608},{5086229301083475,-608},{7629343951625212,-608},{7730260399175967,-608},{8188425105508937,-608},{8697048035617284,-608},
{4682563510880459,-607},{5136687524858852,-607},{7528427504074458,-607},{7629343951625213,-607},{7679802175400589,-607},{8033009741828229,-607},
{4934854629757344,-606},{5111458412971163,-606},{7528427504074458,-606},{7629343951625213,-606},{7654573063512901,-606},{7780718622951344,-606},
{4934854629757344,-605},{5061000189195786,-605},{5111458412971163,-605},{7654573063512901,-605},{7780718622951344,-605},{8913515832839926,-605},
{4556417951442016,-604},{5061000189195787,-604},{7149990825759131,-604},{7654573063512901,-604},{7780718622951343,-604},{7780718622951344,-604},
{5061000189195787,-603},{6168568287196680,-603},{7654573063512901,-603},{7780718622951344,-603},{8397575451671011,-603},{8762141161513794,-603},
{4752571774835953,-602},{5677857017915454,-602},{7654573063512901,-602},{7780718622951344,-602},{8271429892232569,-602},{8706003866030845,-602},
{5047129220723242,-601},{5677857017915455,-601},{6729287820433399,-601},{7640702095040356,-601},{7780718622951343,-601},{7780718622951344,-601},
{4906785982015870,-600},{5117137484678735,-600},{7500358856332984,-600},{7710710358995850,-600},{7780718622951344,-600},{8551789658850928,-600},
{6448928053815039,-599},{7114823338383191,-599},{7500358856332984,-599},{7710710358995850,-599},{7780718622951344,-599},{7885894374282777,-599},
{4521250464066077,-598},{5239733624299945,-598},{5625269142249738,-598},{6448928053815039,-598},{7114823338383192,-598},{7885894374282777,-598},
{4854198106350153,-597},{6308911525904052,-597},{6781875696099116,-597},{7044815074427698,-597},{7114823338383191,-597},{7780718622951344,-597},
{4687724285208115,-596},{6115980411530963,-596},{6948349517241154,-596},{7114823338383191,-596},{7780718622951344,-596},{8709553285848078,-596},
{4687724285208115,-595},{6948349517241153,-595},{6948349517241154,-595},{7031586427812172,-595},{7780718622951344,-595},{8709553285848078,-595},
{4770961195779134,-594},{5283611305820773,-594},{5923049297157875,-594},{6948349517241154,-594},{7044815074427698,-594},{7364534070096248,-594},
{4770961195779134,-593},{4979053472206681,-593},{5283611305820773,-593},{6948349517241154,-593},{7044815074427698,-593},{7364534070096249,-593},
{4562868919351586,-592},{5963701494723917,-592},{6324072687958511,-592},{6948349517241154,-592},{7364534070096249,-592},{8141089816185937,-592},
{4562868919351586,-591},{4562868919351587,-591},{5202306910688688,-591},{5603330301489324,-591},{5963701494723917,-591},{8486299847366072,-591},
{4562868919351586,-590},{4562868919351587,-590},{5263285207037752,-590},{5963701494723917,-590},{6364724885524554,-590},{7323881872530206,-590},
{4562868919351586,-589},{5263285207037752,-589},{5303937404603795,-589},{5963701494723917,-589},{7194511522870463,-589},{8384669353450965,-589},
{4562868919351586,-588},{4647880192964479,-588},{5093262659811966,-588},{5263285207037752,-588},{8510332824629901,-588},{8595344098242794,-588},
{4562868919351587,-587},{5303937404603795,-587},{5412981655480517,-587},{6579106508797190,-587},{6684443881193104,-587},{8595344098242793,-587},
{5305790843844198,-586},{6048712768336811,-586},{6579106508797190,-586},{6684443881193104,-586},{7852422173750182,-586},{8700681470638708,-586},
{4934329881597892,-585},{6048712768336811,-585},{6366578324764957,-585},{6579106508797190,-585},{7852422173750182,-585},{8382815914210561,-585},
{5621802961031942,-584},{6048712768336811,-584},{6366578324764958,-584},{7638040550477545,-584},{8064950357782414,-584},{8223883135996487,-584},
{6048712768336811,-583},{6843376659407178,-583},{7136297952166649,-583},{7295230730380723,-583},{8223883135996487,-583},{8859614248852781,-583},
{5437925919149192,-582},{5743319343743002,-582},{6048712768336811,-582},{7454163508594796,-582},{8223883135996487,-582},{8688209338804370,-582},
{4827139069961574,-581},{5743319343743002,-581},{6048712768336810,-581},{7454163508594796,-581},{7881073315899665,-581},{8064950357782414,-581},
{4827139069961574,-580},{5743319343743002,-580},{5896016056039906,-580},{6354106192930620,-580},{7454163508594796,-580},{7912253645485509,-580},
{4827139069961574,-579},{5590622631446097,-579},{5896016056039906,-579},{6827786494614255,-579},{8217647070079319,-579},{8691327371762955,-579},
{4658852192871747,-578},{5590622631446097,-578},{6285552919178629,-578},{6827786494614255,-578},{8217647070079319,-578},{8301790508624232,-578},
{4658852192871747,-577},{4658852192871748,-577},{5758909508535924,-577},{7370020070049882,-577},{8217647070079319,-577},{8301790508624232,-577},
{4658852192871747,-576},{5082665692886466,-576},{5758909508535924,-576},{7370020070049882,-576},{8217647070079319,-576},{8301790508624232,-576},
{4658852192871747,-575},{5294572442893824,-575},{6226342881468174,-575},{7158113320042524,-575},{7877977008609514,-575},{8217647070079319,-575},
{4739899324126510,-574},{5718385942908542,-574},{6438249631475533,-574},{7158113320042524,-574},{7198636885669905,-574},{8896987193018928,-574},
{4739899324126510,-573},{5188619067890145,-573},{6818443258572719,-573},{7158113320042524,-573},{8407743883627911,-573},{8896987193018928,-573},
{4549802510577917,-572},{5188619067890145,-572},{6628346445024126,-572},{7158113320042524,-572},{7782928601835217,-572},{8896987193018928,-572},
{5310189764772289,-571},{6343201224701236,-571},{6438249631475533,-571},{6533298038249830,-571},{6818443258572719,-571},{8326696752373149,-571},
{6343201224701237,-570},{6438249631475533,-570},{6533298038249830,-570},{6818443258572719,-570},{7293685292444201,-570},{8095336242731564,-570},
{4876211426993798,-569},{6343201224701237,-569},{6533298038249830,-569},{8095336242731564,-569},{8285433056280157,-569},{8876355344972432,-569},
{4876211426993798,-568},{5847327342783258,-568},{6095264283742248,-568},{6876283385983115,-568},{8095336242731564,-568},{8781306938198136,-568},
{4855579578947302,-567},{6095264283742248,-567},{6818443258572719,-567},{7562254081449686,-567},{8781306938198135,-567},{8781306938198136,-567},
{6095264283742247,-566},{6095264283742248,-566},{6818443258572719,-566},{7438285610970191,-566},{8657338467718641,-566},{8781306938198136,-566},
{6095264283742247,-565},{6095264283742248,-565},{6766774947356219,-565},{7438285610970192,-565},{7985827804104669,-565},{8161464585800663,-565},
{4700574645297804,-564},{6095264283742248,-564},{6766774947356219,-564},{7438285610970192,-564},{8161464585800663,-564},{8884643560631134,-564},
{4700574645297804,-563},{6095264283742248,-563},{6431019615549233,-563},{7438285610970192,-563},{8161464585800663,-563},{8884643560631134,-563},
{4532696979394311,-562},{5759508951935261,-562},{6263141949645741,-562},{6431019615549233,-562},{7438285610970192,-562},{8161464585800663,-562},
{5036329977104790,-561},{5527090242561274,-561},{5759508951935262,-561},{6482687926765733,-561},{6598897281452726,-561},{7438285610970192,-561},
{5527090242561274,-560},{5759508951935262,-560},{6482687926765733,-560},{6598897281452726,-560},{7018591446211459,-560},{7438285610970192,-560},
{5339814787176529,-559},{5759508951935262,-559},{6598897281452726,-559},{7018591446211459,-559},{7438285610970192,-559},{8581158750559395,-559},
{4634402337520496,-558},{5339814787176529,-558},{6598897281452726,-558},{7438285610970192,-558},{8009722180764793,-558},{8143698060626225,-558},
{5054096502279228,-557},{5723975901586386,-557},{7438285610970191,-557},{7625561066354937,-557},{7724003895867493,-557},{8581158750559395,-557},
{4911237359830577,-556},{5054096502279228,-556},{6196969641868432,-556},{7152567326072891,-556},{7724003895867493,-556},{8581158750559395,-556},
{4911237359830577,-555},{5054096502279228,-555},{5482673929625179,-555},{7152567326072891,-555},{7866863038316143,-555},{8987528021437300,-555},
{4536686449061087,-554},{5482673929625180,-554},{6317620627849035,-554},{7866863038316143,-554},{8701809736539998,-554},{8784019907959139,-554},
{4536686449061087,-553},{4708052724391626,-553},{6317620627849035,-553},{7866863038316143,-553},{8701809736539998,-553},{8904670893939742,-553},
{4708052724391626,-552},{6704931230465812,-552},{7806537545325841,-552},{7866863038316143,-552},{7927188531306445,-552},{8701809736539998,-552},
{5869984532241957,-551},{5930310025232258,-551},{7323933601403429,-551},{7625561066354937,-551},{7927188531306444,-551},{7927188531306445,-551},
{4962033518690315,-550},{5869984532241956,-550},{5930310025232258,-550},{6898586531774201,-550},{7625561066354937,-550},{7927188531306445,-550},
{6898586531774200,-549},{6898586531774201,-549},{7412887531540322,-549},{7927188531306445,-549},{8381164038082265,-549},{8654163065887181,-549},
{6898586531774200,-548},{6898586531774201,-548},{7155737031657261,-548},{7412887531540323,-548},{8381164038082265,-548},{8654163065887181,-548},
{4628708997895098,-547},{5869984532241956,-547},{6596959066822693,-547},{6898586531774201,-547},{7155737031657261,-547},{8441489531072567,-547},
{5869984532241956,-546},{6898586531774201,-546},{7027161781715731,-546},{7155737031657261,-546},{7155737031657262,-546},{7882711566237998,-546},
{5869984532241956,-545},{6512860781949609,-545},{6898586531774201,-545},{7027161781715731,-545},{7155737031657261,-545},{7155737031657262,-545},
{4559953806507606,-544},{5869984532241957,-544},{6512860781949609,-544},{7155737031657261,-544},{7798613281364914,-544},{8970357466630116,-544},
{4517904664071064,-543},{5206083711316033,-543},{6512860781949609,-543},{7155737031657261,-543},{8462514102290838,-543},{8970357466630116,-543},
{4517904664071064,-542},{5206083711316033,-542},{6512860781949609,-542},{7809125566974049,-542},{8462514102290838,-542},{8991382037848387,-542},
{4511148979995996,-541},{4520282811928265,-541},{6491836210731338,-541},{6502348496340473,-541},{6523373067558745,-541},{8986625742133986,-541},
{4509770526319129,-540},{4520282811928265,-540},{4879389443657639,-540},{6502348496340473,-540},{8135819834632444,-540},{8986625742133986,-540},
{4879389443657639,-539},{7319084165486458,-539},{8114795263414173,-539},{8135819834632443,-539},{8135819834632444,-539},{8146332120241579,-539},
{8030696978541089,-538},{8114795263414172,-538},{8125307549023308,-538},{8135819834632443,-538},{8135819834632444,-538},{8188381262678121,-538},
{6083468376158345,-537},{6093980661767481,-537},{8030696978541089,-537},{8135819834632443,-537},{8135819834632444,-537},{8188381262678121,-537},
{5078317218139567,-536},{6062443804940075,-536},{6093980661767481,-536},{6115005232985752,-536},{8135819834632443,-536},{8135819834632444,-536},
{4575741639130178,-535},{5078317218139568,-535},{5591405082758092,-535},{6115005232985752,-535},{8135819834632443,-535},{8135819834632444,-535},
{4657825793774148,-534},{6607068526386005,-534},{8135819834632443,-534},{8135819834632444,-534},{8398626974860831,-534},{8627883128032697,-534},
{5412696227402789,-533},{7371444180509224,-533},{7643756541232190,-533},{8135819834632443,-533},{8135819834632444,-533},{8627883128032697,-533},
{5298068150816856,-532},{7371444180509224,-532},{7643756541232190,-532},{7753632007570834,-532},{8135819834632443,-532},{8135819834632444,-532},
{5298068150816856,-531},{5675503367631176,-531},{6224880699324396,-531},{6716943992724649,-531},{8135819834632443,-531},{8135819834632444,-531},
{5675503367631176,-530},{6224880699324396,-530},{6716943992724650,-530},{7426381913678546,-530},{8135819834632443,-530},{8135819834632444,-530},
{4668660524493297,-529},{4966065446677279,-529},{5870161738847447,-529},{7426381913678547,-529},{8135819834632443,-529},{8135819834632444,-529},
{4724927767887190,-528},{4966065446677279,-528},{7426381913678546,-528},{7781100874155495,-528},{8135819834632444,-528},{8754392730236853,-528},
{4611346486200330,-527},{4966065446677279,-527},{7426381913678546,-527},{7781100874155495,-527},{8135819834632444,-527},{8754392730236853,-527},
{4611346486200330,-526},{4966065446677279,-526},{6013185135855095,-526},{7781100874155495,-526},{8135819834632444,-526},{8811183371080283,-526},
{4611346486200330,-525},{4966065446677279,-525},{7074502485243769,-525},{8135819834632444,-525},{8839578691501998,-525},{8842418223544169,-525},
{4597148825989473,-524},{4951867786466421,-524},{5320784407154227,-524},{5661305707420319,-524},{7094379209538970,-524},{8130140770548101,-524},
{4951867786466421,-523},{4951867786466422,-523},{6725462588851164,-523},{7250442199461158,-523},{7605161159938107,-523},{8499057391235906,-523},
{4951867786466421,-522},{4951867786466422,-522},{6278514473202264,-522},{6725462588851164,-522},{7605161159938107,-522},{8314599080892003,-522},
{4767409476122519,-521},{4951867786466421,-521},{6633233433679213,-521},{7278837519882873,-521},{8222369925720052,-521},{8867974011923712,-521},
{4767409476122519,-520},{4951867786466421,-520},{6633233433679213,-520},{6817691744023115,-520},{8222369925720052,-520},{8406828236063955,-520},
{4951867786466421,-519},{5792550610072817,-519},{6817691744023115,-519},{7381687102113657,-519},{7848143091502830,-519},{8688825915109226,-519},
{6817691744023115,-518},{7381687102113656,-518},{7381687102113657,-518},{8559425265231362,-518},{8688825915109226,-518},{8970823594154496,-518},
{5138981203575032,-517},{6817691744023115,-517},{7099689423068386,-517},{7381687102113657,-517},{8035256508611441,-517},{8688825915109226,-517},
{5138981203575032,-516},{6817691744023115,-516},{6913903559342129,-516},{7099689423068386,-516},{7381687102113657,-516},{8688825915109226,-516},
{4578304728940376,-515},{5324767067301289,-515},{6353227084707473,-515},{7099689423068386,-515},{7381687102113657,-515},{8688825915109226,-515},
{4578304728940376,-514},{5324767067301289,-514},{6353227084707473,-514},{7099689423068386,-514},{8128149440474570,-514},{8509677818294739,-514},
{4578304728940376,-513},{5324767067301289,-513},{6353227084707473,-513},{7099689423068386,-513},{8128149440474570,-513},{8692144798565111,-513},
{4578304728940376,-512},{5324767067301289,-512},{6353227084707473,-512},{7099689423068386,-512},{8783378288700297,-512},{8828995033767890,-512},
{5051066596895732,-511},{5279150322233696,-511},{7054072678000793,-511},{7190922913203572,-511},{8828995033767890,-511},{8874611778835482,-511},
{5279150322233696,-510},{5279150322233697,-510},{7054072678000793,-510},{7190922913203572,-510},{8828995033767890,-510},{8874611778835482,-510},
{5279150322233696,-509},{5279150322233697,-509},{5393192184902679,-509},{7054072678000793,-509},{7076881050534589,-509},{8828995033767890,-509},
{5051066596895732,-508},{5279150322233696,-508},{7076881050534590,-508},{7304964775872554,-508},{8760569916166500,-508},{8988653641504465,-508},
{5279150322233696,-507},{6178015686384143,-507},{7076881050534590,-507},{7304964775872554,-507},{7861704552016054,-507},{8368158165425768,-507},
{5082944446863331,-506},{5899645798312393,-506},{6178015686384143,-506},{7273086925904955,-506},{7861704552016054,-506},{8368158165425768,-506},
{5181047384548513,-505},{5475356197604063,-505},{6178015686384143,-505},{6880675175164223,-505},{7174983988219773,-505},{8270055227740585,-505},
{4786166246025395,-504},{4984841509178148,-504},{6178015686384143,-504},{7371189863590138,-504},{8564364040796134,-504},{8842733928867884,-504},
{4984841509178148,-503},{5230098853391105,-503},{5965870886029978,-503},{6178015686384143,-503},{6390160486738308,-503},{8319106696583176,-503},
{4510883092681629,-502},{4527439364611025,-502},{5704057269887624,-502},{6178015686384143,-502},{7828592008157261,-502},{8793065113079695,-502},
{4693002083904985,-501},{5458799925674667,-501},{6897231447093619,-501},{7616447207803096,-501},{7875174089217467,-501},{8252881608865592,-501},
{4993119645142845,-500},{5034510324966336,-500},{7362911727625441,-500},{8082127488334917,-500},{8252881608865592,-500},{8972097369575069,-500},
{4993119645142845,-499},{6643695966915964,-499},{7130071587359530,-499},{7362911727625440,-499},{8314967628600828,-499},{8801343249044394,-499},
{5205264445497011,-498},{6814450087446639,-498},{7362911727625441,-498},{8082127488334917,-498},{8801343249044393,-498},{8801343249044394,-498},
{5205264445497011,-497},{5701987735896450,-497},{7807896668245516,-497},{8082127488334917,-497},{8801343249044393,-497},{8801343249044394,-497},
{4871525740031954,-496},{5701987735896449,-496},{5701987735896450,-496},{8304619958644955,-496},{8801343249044394,-496},{8912589484199412,-496},
{4871525740031954,-495},{5701987735896449,-495},{6476826614183435,-495},{7251665492470422,-495},{8137750605912427,-495},{8304619958644955,-495},
{4649033269721916,-494},{5701987735896449,-494},{5701987735896450,-494},{6139203140920232,-494},{6476826614183435,-494},{7311173377846078,-494},
{4649033269721916,-493},{5701987735896449,-493},{5701987735896450,-493},{5920595438408341,-493},{6089407175039942,-493},{7529781080357969,-493},
{5701987735896449,-492},{5701987735896450,-492},{6089407175039942,-492},{6283116894611689,-492},{7529781080357969,-492},{7639084931613915,-492},
{5046164628360776,-491},{5592683884640504,-491},{5701987735896450,-491},{6670536333755182,-491},{7639084931613914,-491},{7639084931613915,-491},
{5592683884640504,-490},{5701987735896450,-490},{6342624779987345,-490},{6670536333755182,-490},{7639084931613914,-490},{7639084931613915,-490},
{4944453808827219,-489},{5002902250316386,-489},{5592683884640504,-489},{5701987735896450,-489},{6670536333755182,-489},{7639084931613915,-489},
{4944453808827219,-488},{4944453808827220,-488},{6139203140920232,-488},{6990854855800630,-488},{8338170417193977,-488},{8986400493007262,-488},
{4544055656270410,-487},{4944453808827219,-487},{5541828474873726,-487},{6990854855800630,-487},{8338170417193977,-487},{8687713159984009,-487},
{5042942065572068,-486},{5243141141850472,-486},{5541828474873726,-486},{6990854855800630,-486},{8338170417193977,-486},{8687713159984009,-486},
{5042942065572068,-485},{5392484808362099,-485},{5541828474873726,-485},{6690556241383022,-485},{7140198522312256,-485},{8687713159984009,-485},
{4593299784642833,-484},{4629653661860422,-484},{6341013498592991,-484},{8088727212543149,-484},{8738568569750787,-484},{8887912236262414,-484},
{4593299784642833,-483},{4593299784642834,-483},{6341013498592991,-483},{8562991557658595,-483},{8738568569750787,-483},{8887912236262414,-483},
{4593299784642833,-482},{4593299784642834,-482},{6103881326035268,-482},{6665934177196810,-482},{8800123730216318,-482},{8887912236262414,-482},
{4593299784642833,-481},{5471184845103798,-481},{6217903177661931,-481},{6815277843708437,-481},{6964621510220064,-481},{7851595039985426,-481},
{5036786549525515,-480},{5181585981384942,-480},{6217903177661931,-480},{6222447412314129,-480},{6815277843708437,-480},{6964621510220064,-480},
{5036786549525514,-479},{6073103745802503,-479},{6222447412314129,-479},{6964621510220064,-479},{7037021226149778,-479},{7629851657544085,-479},
{4964386833595800,-478},{5181585981384942,-478},{6000704029872789,-478},{6073103745802503,-478},{6964621510220064,-478},{7037021226149778,-478},
{5000586691560657,-477},{5181585981384942,-477},{6000704029872789,-477},{6073103745802503,-477},{6964621510220064,-477},{7037021226149778,-477},
{5000586691560658,-476},{5018686620543086,-476},{6018803958855217,-476},{7037021226149778,-476},{7145620800044348,-476},{8037138564461909,-476},
{5000586691560658,-475},{5018686620543086,-475},{6018803958855217,-475},{6527912592502498,-475},{8037138564461909,-475},{8127638209374051,-475},
{4509577986895806,-474},{5439606231417506,-474},{7546129859797058,-474},{8308637499198336,-474},{8528147269126760,-474},{8761135723759049,-474},
{4509577986895806,-473},{5401095751313367,-473},{6273358275678857,-473},{7546129859797058,-473},{8308637499198336,-473},{8799646203863188,-473},
{5145963778954906,-472},{5401095751313367,-472},{6273358275678857,-472},{6909744067737958,-472},{8327892739250406,-472},{8818901443915257,-472},
{4654955074290055,-471},{4890831806596445,-471},{5145963778954906,-471},{5636972483619757,-471},{7345875329920703,-471},{7365130569972773,-471},
{4654955074290055,-470},{4890831806596445,-470},{5145963778954906,-470},{5636972483619757,-470},{7345875329920703,-470},{8583024711608867,-470},
{4654955074290055,-469},{4890831806596445,-469},{5145963778954906,-469},{6432454723693632,-469},{6736928259102656,-469},{8583024711608867,-469},
{6127981188284609,-468},{6432454723693632,-468},{6756183499154726,-468},{7041401794511680,-468},{7326620089868633,-468},{8563769471556797,-468},
{6432454723693632,-467},{6756183499154726,-467},{7041401794511679,-467},{7812213253060273,-467},{8116686788469297,-467},{8563769471556797,-467},
{6432454723693632,-466},{6898792646833203,-466},{7041401794511679,-466},{7274570756081465,-466},{8421160323878320,-466},{8654329285448105,-466},
{5590338691305801,-465},{6432454723693632,-465},{6853512739887549,-465},{7041401794511679,-465},{8421160323878320,-465},{8654329285448105,-465},
{5590338691305800,-464},{5590338691305801,-464},{6970097220672441,-464},{7695628772275381,-464},{8563769471556797,-464},{8920292340752989,-464},
{4936111713542099,-463},{5590338691305800,-463},{5590338691305801,-463},{6642983731790591,-463},{8022742261157231,-463},{8563769471556797,-463},
{4936111713542099,-462},{5263225202423950,-462},{5590338691305801,-462},{6116661211548195,-462},{6642983731790591,-462},{8549064781399626,-462},
{5590338691305800,-461},{6928202027147544,-461},{7553019624596904,-461},{8221951292517776,-461},{8549064781399626,-461},{8563769471556797,-461},
{5590338691305800,-460},{5605043381462971,-460},{7240610825872224,-460},{8221951292517776,-460},{8549064781399626,-460},{8876178270281477,-460},
{4768878796561882,-459},{5590338691305800,-459},{6579031503029937,-459},{7240610825872224,-459},{7727604886655707,-459},{8876178270281477,-459},
{4704578710681860,-458},{4768878796561882,-458},{6266622704305258,-458},{7727604886655707,-458},{8876178270281476,-458},{8876178270281477,-458},
{4768878796561882,-457},{6092037442246454,-457},{6266622704305258,-457},{7727604886655707,-457},{8876178270281476,-457},{8876178270281477,-457},
{4525381766170140,-456},{4768878796561882,-456},{7484107856263965,-456},{8180143063272721,-456},{8876178270281476,-456},{8876178270281477,-456},
{4525381766170140,-455},{4542609708253375,-455},{5221416973178895,-455},{8406412151581228,-455},{8876178270281476,-455},{8876178270281477,-455},
{4699967028228943,-454},{5221416973178896,-454},{6266622704305258,-454},{6613487387196407,-454},{8180143063272721,-454},{8876178270281476,-454},
{5656727207712675,-453},{6613487387196407,-453},{7223382883788989,-453},{7614470342501453,-453},{8180143063272721,-453},{8745815784043989,-453},
{5351779459416384,-452},{6417943657840175,-452},{6918435135492698,-452},{7614470342501453,-452},{8180143063272721,-452},{8485090811569012,-452},
{5614810273117818,-451},{5961674956008966,-451},{7549289099382710,-451},{8180143063272721,-451},{8527007746163870,-451},{8810997027162732,-451},
{4679008560931515,-450},{5025873243822663,-450},{6450534279399546,-450},{7549289099382710,-450},{8180143063272721,-450},{8527007746163870,-450},
{4557972387729512,-449},{5270302905517953,-449},{7712242207179570,-449},{8180143063272721,-449},{8648043919365872,-449},{8729520473264303,-449},
{4904837070620661,-448},{5961674956008966,-448},{6369057725501117,-448},{7712242207179569,-448},{8180143063272721,-448},{8301179236474724,-448},
{5229564628568739,-447},{5433256013314814,-447},{5961674956008966,-447},{7772760293780571,-447},{8180143063272721,-447},{8851735304111947,-447},
{4659818080102550,-446},{5433256013314814,-446},{5697465484661890,-446},{7508550822433494,-446},{8180143063272721,-446},{8851735304111947,-446},
{4659818080102549,-445},{4659818080102550,-445},{5697465484661890,-445},{8180143063272721,-445},{8281988755645759,-445},{8465016337505815,-445},
{4659818080102550,-444},{6470903417874154,-444},{7508550822433494,-444},{7895269789039626,-444},{8281988755645759,-444},{8829598179168877,-444},
{4659818080102550,-443},{6277543934571088,-443},{7508550822433494,-443},{7895269789039626,-443},{7895269789039627,-443},{8829598179168877,-443},
{4756497821754082,-442},{6277543934571088,-442},{7701910305736560,-442},{7798590047388094,-442},{7895269789039627,-442},{8829598179168877,-442},
{4543947857622051,-441},{7315191339130428,-441},{7798590047388094,-441},{7895269789039626,-441},{8281988755645759,-441},{8829598179168877,-441},
{7798590047388093,-440},{7798590047388094,-440},{7846929918213860,-440},{7895269789039626,-440},{8281988755645759,-440},{8829598179168877,-440},
{7556890693259261,-439},{7798590047388093,-439},{7798590047388094,-439},{7846929918213860,-439},{7895269789039626,-439},{8281988755645759,-439},
{5623295860228601,-438},{6042483853220813,-438},{6831792630872763,-438},{7798590047388094,-438},{8040289401516926,-438},{8281988755645758,-438},
{5228641471402626,-437},{5623295860228601,-437},{6030217051137694,-437},{6831792630872763,-437},{7798590047388094,-437},{8040289401516926,-437},
{4904331198883662,-436},{6030217051137695,-436},{6831792630872763,-436},{6914403549262894,-436},{7798590047388094,-436},{8841864981251995,-436},
{6030217051137694,-435},{6042483853220813,-435},{6831792630872763,-435},{7226447019698739,-435},{8040289401516926,-435},{8441077191384461,-435},
{6030217051137694,-434},{6042483853220813,-434},{7235647121261078,-434},{8040289401516926,-434},{8441077191384460,-434},{8835731580210436,-434},
{4622859735820155,-433},{5632495961790940,-433},{6632932086199386,-433},{7636434911128612,-433},{8441077191384460,-433},{8643004436578617,-433},
{4622859735820154,-432},{5326538393478924,-432},{6232144296331852,-432},{6632932086199386,-432},{7636434911128612,-432},{7939325778919848,-432},
{4622859735820155,-431},{6232144296331852,-431},{6626798685157827,-431},{7336610743858156,-431},{8141253024114004,-431},{8441077191384460,-431},
{4622859735820155,-430},{6232144296331852,-430},{6626798685157827,-430},{7336610743858156,-430},{8291165107749232,-430},{8441077191384460,-430},
{4622859735820155,-429},{5502458057893617,-429},{5877238266981687,-429},{6232144296331852,-429},{6457012421784693,-429},{8441077191384460,-429},
{5482583878155712,-428},{5502458057893617,-428},{5522332237631522,-428},{6232144296331851,-428},{7376359103333967,-428},{8441077191384461,-428},
{4585381714911347,-427},{5482583878155712,-427},{5502458057893617,-427},{5522332237631522,-427},{5542206417369428,-427},{8441077191384461,-427},
{4585381714911347,-426},{4585381714911348,-426},{5502458057893617,-426},{5522332237631522,-426},{6439408580613792,-426},{7430305796130174,-426},
{4585381714911347,-425},{4585381714911348,-425},{5502458057893617,-425},{7805086005218244,-425},{8273561266578331,-425},{8372932165267858,-425},
{4585381714911347,-424},{4585381714911348,-424},{5502458057893617,-424},{8029386546029335,-424},{8722162348200513,-424},{8821533246890040,-424},
{4585381714911347,-423},{4585381714911348,-423},{5502458057893617,-423},{7224460473452611,-423},{8821533246890040,-423},{8946462889011604,-423},
{4585381714911347,-422},{4585381714911348,-422},{5502458057893617,-422},{8656150123128788,-422},{8834312618606058,-422},{8946462889011604,-422},
{4585381714911347,-421},{5258283337344621,-421},{6821997437164249,-421},{6934147707569794,-421},{8273561266578331,-421},{8834312618606058,-421},
{4585381714911347,-420},{5703689576037798,-420},{6485546625947612,-420},{6821997437164249,-420},{7046297977975340,-420},{8834312618606058,-420},
{4585381714911347,-419},{5591539305632252,-419},{5703689576037798,-419},{6821997437164249,-419},{7046297977975340,-419},{7940305298290699,-419},
{4803292569864429,-418},{5591539305632253,-418},{6318918641803796,-418},{7940305298290699,-418},{8667684634462242,-418},{8744526248703545,-418},
{4636664585720613,-417},{6318918641803796,-417},{7129611970047247,-417},{7940305298290699,-417},{8750998626534151,-417},{8911154232847361,-417},
{4553350593648705,-416},{4739188981352847,-416},{5549882309596299,-416},{7129611970047247,-416},{7940305298290699,-416},{8994468224919269,-416},
{4511693597612752,-415},{4719978577792521,-415},{7898648302254745,-415},{8190247274506423,-415},{8744526248703545,-415},{8994468224919268,-415},
{4511693597612751,-414},{4511693597612752,-414},{7919476800272722,-414},{7981962294326653,-414},{8952811228883315,-414},{8973639726901291,-414},
{4511693597612751,-413},{7909062551263733,-413},{7919476800272722,-413},{7929891049281711,-413},{7981962294326653,-413},{8952811228883315,-413},
{5939607600204541,-412},{7825748559191826,-412},{7919476800272722,-412},{7929891049281710,-412},{7929891049281711,-412},{7981962294326653,-412},
{5856293608132633,-411},{5908364853177576,-411},{7409178598832286,-411},{7929891049281710,-411},{7929891049281711,-411},{8190247274506423,-411},
{4923637377647980,-410},{5752151118042749,-410},{6012507343267461,-410},{7929891049281710,-410},{7929891049281711,-410},{8914618524811306,-410},
{4923637377647980,-409},{6012507343267461,-409},{6841021083662230,-409},{7929891049281710,-409},{8422254787046509,-409},{8914618524811306,-409},
{4923637377647980,-408},{5444349828097405,-408},{5752151118042749,-408},{6841021083662229,-408},{7361733534111654,-408},{7929891049281711,-408},
{4923637377647980,-407},{5610111739250234,-407},{5752151118042749,-407},{6556942326077201,-407},{7929891049281711,-407},{8474326032091451,-407},
{4923637377647980,-406},{5539092049853977,-406},{6556942326077201,-406},{7929891049281711,-406},{8071930428074225,-406},{8474326032091451,-406},
{4639558620062952,-405},{5397052671061464,-405},{6154546722059975,-405},{6651536640149084,-405},{7267139220039772,-405},{8071930428074224,-405},
{4639558620062952,-404},{4817107843553595,-404},{5491646985133346,-404},{6734491549567844,-404},{8427028875055510,-404},{8651875255582093,-404},
{4639558620062952,-403},{4911702157625477,-403},{6734491549567844,-403},{7024463963321778,-403},{7604408790829648,-403},{9006973702563379,-403},
{4639558620062952,-402},{4929531033816886,-402},{5050868662175883,-402},{5340841075929818,-402},{7024463963321778,-402},{9006973702563379,-402},
{4929531033816887,-401},{5799448275078690,-401},{7249310343848362,-401},{7267139220039772,-401},{8418114436959805,-401},{8708086850713739,-401},
{4789002045987772,-400},{5799448275078690,-400},{7249310343848362,-400},{8418114436959805,-400},{8708086850713739,-400},{8708086850713740,-400},
{5078974459741706,-399},{6458572034596821,-399},{6528836528511378,-399},{6748544448350756,-399},{8708086850713739,-399},{8708086850713740,-399},
{6528836528511379,-398},{7240395905752658,-398},{7249310343848362,-398},{7258224781944067,-398},{7267139220039772,-398},{8708086850713739,-398},
{5439211367410198,-397},{5448125805505903,-397},{6348718074677133,-397},{7249310343848362,-397},{7438343235778313,-397},{8708086850713739,-397},
{5439211367410198,-396},{6258658847760010,-396},{6348718074677132,-396},{7438343235778313,-396},{8167731489211002,-396},{8708086850713739,-396},
{4547533536334673,-395},{6348718074677133,-395},{7231481467656953,-395},{7258224781944067,-395},{8140988174923888,-395},{8618027623796616,-395},
{6123570007384325,-394},{6799014209262747,-394},{7483372849236875,-394},{7708520916529682,-394},{8618027623796616,-394},{8618027623796617,-394},
{5556242620104454,-393},{6799014209262747,-393},{7483372849236875,-393},{7708520916529682,-393},{8050700236516745,-393},{8618027623796617,-393},
{5272578926464518,-392},{5781390687397261,-392},{7483372849236875,-392},{7708520916529682,-392},{7767036542876810,-392},{8618027623796617,-392},
{4763767165531776,-391},{4871883980130327,-391},{4980000794728878,-391},{5272578926464518,-391},{5781390687397262,-391},{6690897394664196,-391},
{4763767165531776,-390},{5272578926464518,-390},{7199709155596939,-390},{7307825970195490,-390},{7454115036063311,-390},{8872433504262988,-390},
{4763767165531776,-389},{5272578926464518,-389},{7199709155596939,-389},{8036071329929964,-389},{8471738557928796,-389},{8872433504262988,-389},
{4763767165531775,-388},{4871883980130327,-388},{7307825970195490,-388},{7781665449463592,-388},{8255504928731694,-388},{8471738557928797,-388},
{4871883980130327,-387},{5345723459398429,-387},{6908731008663613,-387},{7307825970195490,-387},{7490687302530265,-387},{7781665449463592,-387},
{5345723459398429,-386},{5545270940164367,-386},{5836249087097694,-386},{6326774714796959,-386},{8762716704862123,-386},{8854147371029511,-386},
{4871883980130327,-385},{5345723459398428,-385},{5836249087097694,-385},{7274453673333163,-385},{7307825970195490,-385},{8272191077162858,-385},
{4863540905914745,-384},{4871883980130327,-384},{5345723459398428,-384},{7291139821764327,-384},{7307825970195490,-384},{8272191077162858,-384},
{4863540905914745,-383},{4871883980130327,-383},{5349894996506219,-383},{7291139821764327,-383},{7299482895979908,-383},{8272191077162858,-383},
{4863540905914745,-382},{4867712443022536,-382},{5349894996506219,-382},{7295311358872118,-382},{7299482895979908,-382},{8756459399200437,-382},
{4863540905914745,-381},{4865626674468641,-381},{4867712443022536,-381},{7291139821764327,-381},{7295311358872117,-381},{7311997507303281,-381},
{4863540905914745,-380},{4865626674468641,-380},{4867712443022536,-380},{4878141285792013,-380},{7291139821764327,-380},{8512239469627751,-380},
{4865626674468641,-379},{4867712443022536,-379},{4878141285792013,-379},{5472004961292562,-379},{8508067932519961,-379},{8512239469627751,-379},
{4836425914714104,-378},{4878141285792014,-378},{6084640553778170,-378},{8497639089750483,-378},{8508067932519960,-378},{8528925618058915,-378},
{4563480415333628,-377},{5486605341169830,-377},{6084640553778170,-377},{6682675766386510,-377},{8508067932519960,-377},{8812299960208869,-377},
{4563480415333627,-376},{6084640553778170,-376},{6682675766386510,-376},{7144238229304611,-376},{7448470256993519,-376},{8056934312371337,-376},
{5109371414094580,-375},{5623078090860068,-375},{7144238229304611,-375},{7605800692222712,-375},{8665398367749154,-375},{8854015331286779,-375},
{5109371414094580,-374},{5623078090860068,-374},{7144238229304611,-374},{8665398367749153,-374},{8665398367749154,-374},{8854015331286779,-374},
{4768189539868985,-373},{6118758741200730,-373},{7144238229304611,-373},{8135599529985933,-373},{8169717717408492,-373},{8665398367749153,-373},
{4845438927926518,-372},{5127397440519408,-372},{8135599529985933,-372},{8169717717408492,-372},{8417558042578823,-372},{8665398367749153,-372},
{4597598602756187,-371},{4768189539868985,-371},{6896397904134280,-371},{8153625556410761,-371},{8665398367749154,-371},{8683424394173981,-371},
{4768189539868985,-370},{5482098834563624,-370},{6896397904134280,-370},{7780898135941717,-370},{8315203480311144,-370},{8845002318074365,-370},
{4952299996800403,-369},{5482098834563623,-369},{5482098834563624,-369},{6541696510090065,-369},{7780898135941717,-369},{8488047670727045,-369},
{4790722072900019,-368},{5482098834563624,-368},{6011897672326844,-368},{6725806967021483,-368},{8488047670727045,-368},{8660891861142947,-368},
{4508923254245133,-367},{5482098834563624,-367},{5654943024979525,-367},{6368852319674163,-367},{6725806967021483,-367},{6985073252645334,-367},
{5482098834563624,-366},{5654943024979525,-366},{6233586043604479,-366},{6985073252645334,-366},{7871826737755874,-366},{8228781385103194,-366},
{4508923254245133,-365},{5260410463285988,-365},{5579787196287091,-365},{5654943024979525,-365},{7439716261716122,-365},{7871826737755875,-365},
{4508923254245133,-364},{5260410463285988,-364},{5617365110633308,-364},{5654943024979525,-364},{7477294176062338,-364},{8069093018602643,-364},
{5617365110633308,-363},{6566118600520931,-363},{6664751740944316,-363},{8167726159026026,-363},{8463625580296179,-363},{8919213368066882,-363},
{5161777322862604,-362},{5617365110633308,-362},{6664751740944316,-362},{8167726159026026,-362},{8463625580296179,-362},{8919213368066882,-362},
{4743767449438118,-361},{5161777322862605,-361},{7021706388291635,-361},{7970459878179258,-361},{8217042729237718,-361},{8919213368066882,-361},
{5161777322862605,-360},{5408360173921065,-360},{6689410026050161,-360},{7021706388291635,-360},{7970459878179258,-360},{8919213368066882,-360},
{5740656536162538,-359},{6689410026050161,-359},{6689410026050162,-359},{7970459878179258,-359},{8155397016473104,-359},{8919213368066882,-359},
{5100131610097990,-358},{5124199408516388,-358},{5504631367594658,-358},{6689410026050161,-358},{8586917005825409,-358},{8919213368066882,-358},
{5124199408516388,-357},{5764724334580936,-357},{5894770818074076,-357},{6689410026050161,-357},{8586917005825409,-357},{8919213368066882,-357},
{4613720965944979,-356},{5894770818074075,-356},{6292090422062119,-356},{6535295744138624,-356},{6689410026050161,-356},{8919213368066882,-356},
{5254245892009527,-355},{5894770818074075,-355},{5894770818074076,-355},{6405249260645485,-355},{7881368838014290,-355},{8586917005825409,-355},
{4548697724198409,-354},{5894770818074075,-354},{5894770818074076,-354},{6888069828044183,-354},{7881368838014290,-354},{8586917005825409,-354},
{4966495049850538,-353},{5077858850056748,-353},{5894770818074075,-353},{7704981796061511,-353},{8169119680173280,-353},{8698280806031618,-353},
{4669402866048084,-352},{5430632933962307,-352},{5894770818074075,-352},{8113437780070175,-352},{8169119680173280,-352},{8698280806031618,-352},
{5894770818074075,-351},{5894770818074076,-351},{6730365469378333,-351},{7472912854005626,-351},{7704981796061511,-351},{8633257564285049,-351},
{4873630858052416,-350},{5894770818074075,-350},{7472912854005627,-350},{7704981796061511,-350},{8494052814027286,-350},{8633257564285049,-350},
{4873630858052416,-349},{5105699800108300,-349},{5894770818074075,-349},{7472912854005627,-349},{7704981796061511,-349},{9004622794038116,-349},
{5523497125760429,-348},{5894770818074076,-348},{6683841836039851,-348},{7472912854005626,-348},{8168936605294439,-348},{8958007623260214,-348},
{4618345868047001,-347},{5523497125760429,-347},{7960266786066926,-347},{8029823392476097,-347},{8749337804032701,-347},{8818894410441872,-347},
{6382124750135375,-346},{7171195768101150,-346},{7322054311053388,-346},{7960266786066926,-346},{8598479261080464,-346},{8749337804032702,-346},
{4769204410999238,-345},{6451681356544546,-345},{7171195768101150,-345},{7171195768101151,-345},{7960266786066926,-345},{8610224591214360,-345},
{5970200089550194,-344},{6277789840521619,-344},{7171195768101150,-344},{7171195768101151,-344},{7960266786066926,-344},{8784116107237287,-344},
{5970200089550194,-343},{6570697928825673,-343},{6724492804311385,-343},{7171195768101150,-343},{7960266786066926,-343},{8784116107237287,-343},
{5558275428965014,-342},{5831086876731853,-342},{6947844286206267,-342},{7171195768101151,-342},{7791790247913844,-342},{8064601695680682,-342},
{5669951169912455,-341},{6675032838439429,-341},{6947844286206268,-341},{7059520027153709,-341},{7171195768101151,-341},{8064601695680682,-341},
{5031004611765550,-340},{6947844286206268,-340},{7059520027153709,-340},{7506222990943475,-340},{7810142326248056,-340},{8895791848184728,-340},
{5350477890839003,-339},{6532249209954244,-339},{6947844286206268,-339},{7810142326248056,-339},{7921818067195498,-339},{8880237904415857,-339},
{5350477890839003,-338},{6740046748080256,-338},{6947844286206268,-338},{7921818067195498,-338},{8129615605321509,-338},{8895791848184728,-338},
{4759592231281381,-337},{4934882814586979,-337},{6740046748080256,-337},{6947844286206268,-337},{7921818067195498,-337},{8720501264879131,-337},
{4759592231281381,-336},{5055035061060192,-336},{5941363550396623,-336},{6947844286206268,-336},{7921818067195498,-336},{8720501264879131,-336},
{5941363550396623,-335},{5941363550396624,-335},{6444603918301445,-335},{7012858195847095,-335},{7921818067195498,-335},{8425058435100320,-335},
{5941363550396623,-334},{6192983734349035,-334},{6444603918301445,-334},{7921818067195498,-334},{8425058435100320,-334},{8457565389920734,-334},
{5941363550396623,-333},{6318793826325240,-333},{6444603918301445,-333},{7199464470158679,-333},{7921818067195498,-333},{8299248343124115,-333},
{4683262630634568,-332},{5754757276085040,-332},{5941363550396624,-332},{6570414010277651,-332},{8295030615818666,-332},{8550868527076525,-332},
{5265661521937700,-331},{5754757276085040,-331},{6757020284589235,-331},{7246116038736575,-331},{7292767607314470,-331},{8550868527076525,-331},
{5265661521937700,-330},{5754757276085040,-330},{5918037766107675,-330},{7246116038736575,-330},{8061772772929186,-330},{8597520095654421,-330},
{4566633709189829,-329},{4601622385623250,-329},{5265661521937700,-329},{7945143851484446,-329},{8562531419221000,-329},{8597520095654421,-329},
{4566633709189829,-328},{5929700658252150,-328},{6582076902422125,-328},{7234453146592100,-328},{7759283293093430,-328},{8411659537263406,-328},
{4566633709189829,-327},{5929700658252150,-327},{6582076902422125,-327},{7234453146592100,-327},{8120087233651556,-327},{8772463477821531,-327},
{4566633709189829,-326},{5929700658252150,-326},{6582076902422125,-326},{7901408005942668,-326},{7974301081845631,-326},{8626677326015606,-326},
{5510582256971654,-325},{6017172349335704,-325},{6596655517602718,-325},{7030352534063806,-325},{7901408005942668,-325},{8553784250112644,-325},
{4639526785092791,-324},{6017172349335704,-324},{6596655517602718,-324},{7901408005942668,-324},{7901408005942669,-324},{8553784250112644,-324},
{4639526785092791,-323},{5762961943414508,-323},{6415338187584483,-323},{6959290177639186,-323},{7901408005942668,-323},{7901408005942669,-323},
{5510582256971654,-322},{5581644613396273,-322},{6888227821214567,-322},{7430349091790928,-322},{7901408005942668,-322},{8843525834246151,-322},
{4875056242168662,-321},{5110585699244532,-321},{6488231263487445,-321},{7901408005942668,-321},{8136937463018539,-321},{8843525834246151,-321},
{4875056242168662,-320},{5110585699244532,-320},{6488231263487445,-320},{7901408005942668,-320},{8136937463018539,-320},{8843525834246151,-320},
{5110585699244532,-319},{5210584838676312,-319},{5749408911650099,-319},{7262584793537102,-319},{7901408005942668,-319},{8843525834246151,-319},
{5410583117539873,-318},{5749408911650099,-318},{6388232124055665,-318},{8204702621840584,-318},{8843525834246150,-318},{8843525834246151,-318},
{4671760765702526,-317},{5749408911650099,-317},{6388232124055665,-317},{7935290585353691,-317},{8574113797759257,-317},{8843525834246151,-317},
{5749408911650099,-316},{6018820948136992,-316},{6388232124055665,-316},{6757643299974338,-316},{7800584567110244,-316},{8439407779515811,-316},
{4606468505082412,-315},{4975879681001086,-315},{6018820948136992,-315},{7627050173051914,-315},{7800584567110244,-315},{7865876827730359,-315},
{4606468505082412,-314},{4975879681001085,-314},{5497350314569039,-314},{6018820948136992,-314},{7800584567110244,-314},{8908818094866265,-314},
{4606468505082412,-313},{5497350314569038,-313},{5497350314569039,-313},{6018820948136992,-313},{6648967440839641,-313},{8908818094866265,-313},
{4844427708367894,-312},{5497350314569039,-312},{5758085631353015,-312},{6018820948136991,-312},{8562616758142568,-312},{8713808764398884,-312},
{4953971018895554,-311},{5497350314569039,-311},{8376393130245546,-311},{8637128447029522,-311},{8713808764398884,-311},{8974544081182861,-311},
{4953971018895554,-310},{5497350314569039,-310},{7067239380799280,-310},{8376393130245546,-310},{8659037109135054,-310},{8919772425919031,-310},
{5497350314569039,-309},{6282294847684159,-309},{6545768747231327,-309},{6806504064015304,-309},{7067239380799281,-309},{7591448597130425,-309},
{5763562796879398,-308},{6545768747231328,-308},{7067239380799280,-308},{7067239380799281,-308},{7327974697583257,-308},{7616095841999148,-308},
{4844142731227502,-307},{5763562796879398,-307},{7067239380799281,-307},{7327974697583257,-307},{7341667611399214,-307},{8768865396803106,-307},
{4844142731227502,-306},{7067239380799281,-306},{7204453496099247,-306},{8178787705585170,-306},{8508130080019130,-306},{8768865396803106,-306},
{5626348681579431,-305},{5694955739229415,-305},{6518382919599413,-305},{7067239380799280,-305},{7204453496099247,-305},{8782558310619064,-305},
{4940206860794498,-304},{6381097560014348,-304},{7067239380799280,-304},{7204453496099247,-304},{8439523022369147,-304},{8782558310619064,-304},
{5008813918444481,-303},{6381097560014348,-303},{6724168470406814,-303},{7821988259234197,-303},{8439523022369147,-303},{8851200990411596,-303},
{5008813918444482,-302},{5557812868214546,-302},{6724168470406814,-302},{7890524072599082,-302},{8439523022369146,-302},{8508058835734032,-302},
{5489098944136915,-301},{6106633707271864,-301},{6175258575993122,-301},{6724168470406814,-301},{7273078364820506,-301},{7341703233541764,-301},
{5043126352805110,-300},{5489098944136915,-300},{6106633707271864,-300},{6724168470406814,-300},{7273078364820506,-300},{7341703233541764,-300},
{5043126352805110,-299},{5043126352805111,-299},{6106633707271864,-299},{6724168470406814,-299},{7787675824873568,-299},{7839144476414512,-299},
{5043126352805110,-298},{5043126352805111,-298},{5317536772333770,-298},{6724168470406814,-298},{6998578889935473,-298},{8936964265241895,-298},
{5043126352805110,-297},{5043126352805111,-297},{6020852621370292,-297},{6724168470406814,-297},{6990045309023503,-297},{7701894738971995,-297},
{5043126352805110,-296},{5043126352805111,-296},{6016585830914307,-296},{6372510545888553,-296},{6724168470406814,-296},{8053552663490256,-296},
{5043126352805110,-295},{6372510545888553,-295},{6548339508147684,-295},{6646920965417212,-295},{6724168470406814,-295},{8405210588008518,-295},
{5043126352805110,-294},{5493365734592900,-294},{6372510545888553,-294},{6724168470406814,-294},{7476775048078101,-294},{8405210588008518,-294},
{5043126352805110,-293},{5795732930476397,-293},{6259950700441606,-293},{6724168470406814,-293},{8405210588008518,-293},{8981988203420673,-293},
{5507344122770319,-292},{6070143350005056,-292},{6372510545888553,-292},{6674877741772050,-292},{8405210588008517,-292},{8693599395714596,-292},
{4628199311474666,-291},{5507344122770319,-291},{6372510545888553,-291},{8116821780302440,-291},{8405210588008517,-291},{8549404991861557,-291},
{5651538526623358,-290},{5723635728549878,-290},{8116821780302440,-290},{8333113386081998,-290},{8405210588008517,-290},{8837793799567634,-290},
{5651538526623358,-289},{6012024536255955,-289},{6992325956352678,-289},{7064423158279198,-289},{8116821780302440,-289},{8405210588008517,-289},
{6703937148646600,-288},{6732996555521150,-288},{7064423158279198,-288},{7395849761037245,-288},{8116821780302439,-288},{8535426603684138,-288},
{4599139904600116,-287},{7064423158279197,-287},{7064423158279198,-287},{7395849761037245,-287},{7590622469290818,-287},{9003507100946658,-287},
{4599139904600116,-286},{4764853205979140,-286},{7064423158279197,-286},{7064423158279198,-286},{7327522813785008,-286},{8740407445440847,-286},
{5738716747247009,-285},{5914638182129168,-285},{6567283254142127,-285},{7064423158279198,-285},{7395849761037245,-285},{8379921435808250,-285},
{5748924880750145,-284},{5914638182129168,-284},{6489530670204183,-284},{7064423158279198,-284},{7395849761037245,-284},{8214208134429226,-284},
{5748924880750145,-283},{5914638182129168,-283},{6489530670204183,-283},{7064423158279198,-283},{7805028947733236,-283},{8214208134429226,-283},
{5135156100706158,-282},{5329537560551018,-282},{5339745694054154,-282},{6567283254142127,-282},{7805028947733236,-282},{8214208134429227,-282},
{5339745694054154,-281},{5544335287402149,-281},{6674682117567692,-281},{7805028947733236,-281},{8214208134429227,-281},{8827976914473213,-281},
{4774572278971383,-280},{5544335287402149,-280},{6674682117567693,-280},{7444445125998459,-280},{8779381549511998,-280},{8827976914473213,-280},
{4774572278971383,-279},{5544335287402149,-279},{6109508702484921,-279},{6674682117567693,-279},{7444445125998459,-279},{8779381549511998,-279},
{4656965282042681,-278},{5544335287402150,-278},{6109508702484921,-278},{6674682117567692,-278},{7239855532650464,-278},{8935375777898779,-278},
{4656965282042681,-277},{4864718234405076,-277},{6109508702484921,-277},{7354299170564766,-277},{7919472585647537,-277},{8935375777898779,-277},
{4864718234405076,-276},{5995065064570620,-276},{6109508702484921,-276},{6223952340399222,-276},{7014490644066229,-276},{8259281112146074,-276},
{4524909707906540,-275},{4577745516572060,-275},{4639353345820842,-275},{4692189154486361,-275},{7579664059149000,-275},{8864928033011419,-275},
{5317209205195730,-274},{6901808199774112,-274},{7579664059149001,-274},{7694107697063302,-274},{7808551334977603,-274},{8371963556438191,-274},
{5317209205195730,-273},{7240736129461556,-273},{7579664059149001,-273},{7694107697063302,-273},{7808551334977603,-273},{8033035626750747,-273},
{5656137134883175,-272},{5770580772797477,-272},{7121889507491795,-272},{7579664059149000,-272},{7694107697063302,-272},{8266325886634809,-272},
{4751595491707413,-271},{5770580772797476,-271},{5770580772797477,-271},{6675122415973238,-271},{7121889507491795,-271},{7694107697063302,-271},
{4751595491707413,-270},{5770580772797476,-270},{6222851594385358,-270},{6446235140144636,-270},{6675122415973238,-270},{7694107697063302,-270},
{5770580772797476,-269},{6675122415973238,-269},{6901257826767179,-269},{7694107697063302,-269},{8031934880736882,-269},{8824784751033005,-269},
{4653663044001086,-268},{4757099221776738,-268},{4977730902501353,-268},{6901257826767179,-268},{8031934880736882,-268},{8824784751033005,-268},
{4757099221776738,-267},{4977730902501353,-267},{6901257826767179,-267},{8031934880736882,-267},{8824784751033004,-267},{8824784751033005,-267},
{4757099221776738,-266},{4977730902501353,-266},{6137706832208297,-266},{8031934880736882,-266},{8824784751033004,-266},{8824784751033005,-266},
{4757099221776738,-265},{5153524156924799,-265},{8031934880736881,-265},{8428359815884943,-265},{8445679591839488,-265},{8824784751033005,-265},
{4757099221776738,-264},{5153524156924799,-264},{6123057394339676,-264},{6519482329487738,-264},{8385301614974390,-264},{8824784751033005,-264},
{4757099221776738,-263},{5153524156924799,-263},{6519482329487738,-263},{7473921072686340,-263},{8355112626541841,-263},{8824784751033005,-263},
{4772193715993012,-262},{5168618651141074,-262},{5565043586289136,-262},{5946374027220922,-262},{6769412885949595,-262},{7928498702961230,-262},
{5168618651141074,-261},{5565043586289136,-261},{6357893456585258,-261},{6769412885949595,-261},{8149352911859672,-261},{8340018132325566,-261},
{5565043586289136,-260},{6357893456585258,-260},{6563653171267427,-260},{6857198249074404,-260},{8149352911859672,-260},{8545777847007734,-260},
{4720753787322470,-259},{6357893456585258,-259},{6460773313926343,-259},{6857198249074404,-259},{8545777847007734,-259},{8993642710826338,-259},
{6049253884562006,-258},{6409333385255801,-258},{6460773313926342,-258},{6563653171267427,-258},{8237138274984482,-258},{8597217775678276,-258},
{6306453527914716,-257},{6409333385255801,-257},{6435053349591071,-257},{6563653171267427,-257},{8494337918337192,-257},{8571497811343005,-257},
{6306453527914716,-256},{6435053349591071,-256},{6435053349591072,-256},{8494337918337192,-256},{8558637829175370,-256},{8571497811343005,-256},
{6306453527914716,-255},{6435053349591071,-255},{6949452636296492,-255},{7979938631631772,-255},{8558637829175370,-255},{8622937740013547,-255},
{5984953973723829,-254},{6306453527914716,-254},{6435053349591071,-254},{7496845589383221,-254},{8622937740013547,-254},{8944437294204435,-254},
{5308961198960745,-253},{6306453527914716,-253},{6435053349591071,-253},{6965949469487146,-253},{7496845589383221,-253},{7625445411059576,-253},
{5968457140533174,-252},{6306453527914716,-252},{6965949469487146,-252},{7625445411059576,-252},{7963441798441118,-252},{8655931406394856,-252},
{5646957586342287,-251},{6137455334223946,-251},{6306453527914716,-251},{6965949469487146,-251},{7625445411059576,-251},{7794443604750346,-251},
{5224462102115359,-250},{5646957586342287,-250},{6137455334223946,-250},{6306453527914716,-250},{6965949469487146,-250},{7625445411059576,-250},
{4564966160542930,-249},{5224462102115359,-249},{5224462102115360,-249},{5680958718169653,-249},{6306453527914716,-249},{6965949469487146,-249},
{5224462102115359,-248},{5224462102115360,-248},{5409957128996785,-248},{6965949469487146,-248},{7151444496368571,-248},{7506945182386825,-248},
{5224462102115359,-247},{5224462102115360,-247},{6187953299241965,-247},{6965949469487146,-247},{7929440666613752,-247},{8107191009622879,-247},
{5224462102115359,-246},{5224462102115360,-246},{5706207700678662,-246},{6965949469487146,-246},{7447695068050449,-246},{8407313923240906,-246},
{5224462102115359,-245},{5224462102115360,-245},{5891702727560088,-245},{6965949469487146,-245},{7206822268768798,-245},{7633190094931874,-245},
{5224462102115359,-244},{5224462102115360,-244},{6215642185442079,-244},{6428826098523617,-244},{6965949469487146,-244},{8170313465895403,-244},
{4955900416633595,-243},{5224462102115359,-243},{5224462102115360,-243},{6697387784005381,-243},{6965949469487146,-243},{7461539511150506,-243},
{5224462102115359,-242},{5224462102115360,-242},{5623141042078323,-242},{5960924943060371,-242},{6965949469487146,-242},{7364628409450110,-242},
{5224462102115359,-241},{5224462102115360,-241},{6965949469487146,-241},{7165288939468628,-241},{7334180889959652,-241},{8906776306840414,-241},
{5224462102115359,-240},{5224462102115360,-240},{5324131837106100,-240},{6279321496037506,-240},{6965949469487146,-240},{7065619204477887,-240},
{5224462102115359,-239},{5423801572096841,-239},{6965949469487146,-239},{7015784336982517,-239},{7065619204477887,-239},{8707436836858933,-239},
{5224462102115359,-238},{5423801572096841,-238},{6965949469487146,-238},{7065619204477887,-238},{7861610586920725,-238},{8707436836858933,-238},
{5224462102115359,-237},{5423801572096841,-237},{6120123219548938,-237},{6965949469487146,-237},{8284523711889829,-237},{8707436836858933,-237},
{5224462102115359,-236},{6120123219548938,-236},{6592871212013412,-236},{6965949469487146,-236},{8495980274374381,-236},{8707436836858933,-236},
{4590092414661704,-235},{5423801572096841,-235},{6120123219548938,-235},{6816444867001035,-235},{7177406031971698,-235},{8707436836858932,-235},
{4590092414661703,-234},{5118733820873084,-234},{6120123219548938,-234},{6816444867001035,-234},{7177406031971698,-234},{8707436836858932,-234},
{4590092414661703,-233},{5118733820873084,-233},{6120123219548938,-233},{7177406031971698,-233},{7233299445718604,-233},{8707436836858932,-233},
{4585400365893259,-232},{4590092414661704,-232},{7233299445718604,-232},{7441726735077388,-232},{7650154024436172,-232},{8971757539964622,-232},
{5250894172425928,-231},{7233299445718604,-231},{7441726735077388,-231},{7650154024436172,-231},{7858581313794957,-231},{8310955782200398,-231},
{5250894172425928,-230},{5581295051308041,-230},{7233299445718604,-230},{7650154024436172,-230},{7858581313794957,-230},{8310955782200398,-230},
{5179854393050185,-229},{5372867761949256,-229},{5581295051308041,-229},{7233299445718604,-229},{7650154024436173,-229},{8275435892512526,-229},
{4651079209423367,-228},{5581295051308041,-228},{6206576919384394,-228},{7233299445718604,-228},{7650154024436173,-228},{8275435892512526,-228},
{4651079209423367,-227},{4651079209423368,-227},{5581295051308041,-227},{6719938182551499,-227},{8788797155679630,-227},{8941264142583791,-227},
{4651079209423368,-226},{5865955834118905,-226},{6796171676003579,-226},{8011048300699117,-226},{8788797155679630,-226},{8941264142583791,-226},
{4651079209423367,-225},{7233299445718604,-225},{8011048300699117,-225},{8656603359772926,-225},{8788797155679630,-225},{8788797155679631,-225},
{7233299445718604,-224},{7688270771162213,-224},{8011048300699117,-224},{8333825830236021,-224},{8656603359772926,-224},{8788797155679630,-224},
{5846897460755886,-223},{6397160653014594,-223},{7233299445718604,-223},{8011048300699117,-223},{8333825830236021,-223},{8656603359772926,-223},
{5201342401682077,-222},{6338770715291099,-222},{6815230049366599,-222},{8069438238422613,-222},{8429117697051121,-222},{8788797155679630,-222},
{4603433276015818,-221},{5979091256662590,-221},{7413139175032858,-221},{8429117697051121,-221},{8429117697051122,-221},{8788797155679630,-221},
{5799251527348335,-220},{7114184612199728,-220},{7413139175032858,-220},{7712093737865988,-220},{8429117697051122,-220},{8608957426365376,-220},
{5619411798034081,-219},{5799251527348336,-219},{6990399862537086,-219},{7058129632548117,-219},{7114184612199728,-219},{8788797155679630,-219},
{5675466777685693,-218},{5799251527348336,-218},{7114184612199728,-218},{7771651154625425,-218},{8373062717399510,-218},{8788797155679630,-218},
{4602265796979876,-217},{4723131849052664,-217},{8131330613253934,-217},{8190304290495400,-217},{8788797155679630,-217},{8847770832921097,-217},
{4723131849052663,-216},{4723131849052664,-216},{5380598391478360,-216},{6038064933904057,-216},{8728364129643236,-216},{8847770832921097,-216},
{4723131849052664,-215},{4843997901125451,-215},{6695531476329753,-215},{7352998018755450,-215},{8131330613253934,-215},{8728364129643236,-215},
{4723131849052664,-214},{6098497959940450,-214},{7352998018755450,-214},{8040681074199343,-214},{8131330613253934,-214},{8728364129643236,-214},
{4692915336034467,-213},{4723131849052664,-213},{6725747989347950,-213},{8713255873134138,-213},{8728364129643236,-213},{8758580642661433,-213},
{5395706647987459,-212},{5796332829758481,-212},{6022956677394958,-212},{7027913119529920,-212},{7504080583846434,-212},{8055789330708441,-212},
{5044310992010963,-211},{6374352333371454,-211},{6650206706802458,-211},{7504080583846434,-211},{8055789330708441,-211},{8834121925206926,-211},
{4868613164022714,-210},{6374352333371454,-210},{6650206706802458,-210},{7077143645324446,-210},{8231487158696690,-210},{8407184986684937,-210},
{4868613164022714,-209},{5747102303963954,-209},{6198654505383206,-209},{6650206706802458,-209},{8407184986684938,-209},{8784891399412400,-209},
{4868613164022714,-208},{5295550102544703,-208},{5747102303963954,-208},{6198654505383206,-208},{6650206706802458,-208},{8407184986684938,-208},
{4868613164022714,-207},{6418276790368516,-207},{6650206706802458,-207},{8187562701699628,-207},{8394877355236306,-207},{8846429556655557,-207},
{4648990879037405,-206},{4868613164022714,-206},{6418276790368516,-206},{7296765930309756,-206},{8187562701699628,-206},{8846429556655557,-206},
{4648990879037404,-205},{5747102303963954,-205},{6198654505383206,-205},{7491772952397803,-205},{7748318131729008,-205},{8297373844192283,-205},
{5747102303963954,-204},{6473182361614843,-204},{6747710217846481,-204},{7748318131729008,-204},{8022845987960645,-204},{8297373844192283,-204},
{5747102303963954,-203},{5835614476557762,-203},{6747710217846481,-203},{7748318131729008,-203},{8022845987960645,-203},{8934941729249364,-203},
{4560478706443598,-202},{5003039569412633,-202},{5561086620326124,-202},{7491772952397803,-202},{8120349499004668,-202},{8934941729249364,-202},
{5561086620326124,-201},{5933117987601785,-201},{6154398419086303,-201},{6561694534208651,-201},{8120349499004668,-201},{8934941729249364,-201},
{5153790505203776,-200},{5561086620326124,-200},{6561694534208651,-200},{7341022016606659,-200},{7544670074167834,-200},{8934941729249364,-200},
{4764126764004772,-199},{6561694534208650,-199},{6951358275407655,-199},{7039520145024373,-199},{7341022016606659,-199},{7491772952397803,-199},
{4764126764004772,-198},{5241952374820494,-198},{7341022016606659,-198},{7491772952397803,-198},{7850142160509594,-198},{8239805901708599,-198},
{4764126764004772,-197},{6291487195713577,-197},{6442238131504720,-197},{7341022016606659,-197},{8239805901708599,-197},{8494365973660066,-197},
{4764126764004772,-196},{5917470721058179,-196},{6442238131504720,-196},{7341022016606659,-196},{8239805901708599,-196},{8816477880235302,-196},
{5694205182193924,-195},{5730462483730480,-195},{5917470721058179,-195},{7341022016606659,-195},{7528030253934358,-195},{8239805901708599,-195},
{4925182717292390,-194},{5917470721058179,-194},{7341022016606659,-194},{8052797664380900,-194},{8239805901708599,-194},{8333310020372448,-194},
{4522542834073345,-193},{5917470721058179,-193},{7341022016606659,-193},{8052797664380900,-193},{8239805901708599,-193},{8735949903591493,-193},
{5327822600511435,-192},{6629246368832419,-192},{6852511907696674,-192},{7117756477742405,-192},{7930670137153403,-192},{8764573312155140,-192},
{5327822600511435,-191},{6507118841604923,-191},{6629246368832419,-191},{7463149543834156,-191},{7635846076880031,-191},{8764573312155140,-191},
{5032998540238062,-190},{5327822600511435,-190},{6334422308559047,-190},{7635846076880031,-190},{7635846076880032,-190},{8789857815064330,-190},
{5032998540238063,-189},{6507118841604923,-189},{6945059944696529,-189},{7635846076880031,-189},{8246483713017514,-189},{8937269845201016,-189},
{5401528615579778,-188},{6507118841604923,-188},{6702952383900762,-188},{6726089393150726,-188},{7635846076880031,-188},{8027513161471710,-188},
{5401528615579778,-187},{5585793653250635,-187},{6507118841604923,-187},{6518687346229904,-187},{7267316001538316,-187},{8568739769859301,-187},
{5401528615579778,-186},{5960107980904841,-186},{6518687346229904,-186},{6887217421571620,-186},{7267316001538316,-186},{8568739769859301,-186},
{5424665624829741,-185},{5775842943233984,-185},{5965892233217332,-185},{6507118841604923,-185},{7077266711554968,-185},{8378690479875952,-185},
{5424665624829741,-184},{5965892233217332,-184},{6331530182402801,-184},{7077266711554968,-184},{7823003240707135,-184},{7998591899909256,-184},
{4562213504514059,-183},{5220155704065165,-183},{5307950033666226,-183},{5965892233217332,-183},{7823003240707135,-183},{7998591899909256,-183},
{5220155704065166,-182},{5424665624829741,-182},{7457365291521665,-182},{7794081979144680,-182},{8100846860291543,-182},{8846583389443710,-182},
{5169028223874022,-181},{6609373801987211,-181},{7457365291521665,-181},{8100846860291543,-181},{8305356781056119,-181},{8846583389443710,-181},
{5169028223874021,-180},{5169028223874022,-180},{6609373801987211,-180},{6634937542082782,-180},{8846583389443710,-180},{8897710869634854,-180},
{5169028223874022,-179},{5889201012930616,-179},{5935940426741181,-179},{6609373801987210,-179},{8049719380100400,-179},{8897710869634854,-179},
{5169028223874022,-178},{5296846924351881,-178},{5889201012930616,-178},{8049719380100400,-178},{8113628730339329,-178},{8897710869634854,-178},
{5889201012930616,-177},{6641328477106676,-177},{6673283152226140,-177},{8049719380100400,-177},{8113628730339329,-177},{8897710869634854,-177},
{5137073548754557,-176},{5153050886314289,-176},{6673283152226140,-176},{7377478603723003,-176},{8113628730339329,-176},{8897710869634854,-176},
{4817526797559907,-175},{5137073548754556,-175},{5905178350490349,-175},{7361501266163270,-175},{7681048017357920,-175},{8369266131295049,-175},
{5216960236553219,-174},{5521125949622452,-174},{5905178350490348,-174},{5905178350490349,-174},{7281614578364608,-174},{7745553667031166,-174},
{5713152150056400,-173},{5905178350490348,-173},{5905178350490349,-173},{7281614578364608,-173},{7745553667031166,-173},{8513658468766958,-173},
{4945047348320608,-172},{5905178350490349,-172},{6304611789483661,-172},{6449004126955569,-172},{6737788801899387,-172},{7553527466597218,-172},
{4945047348320609,-171},{5425112849405478,-171},{5905178350490349,-171},{6449004126955569,-171},{7553527466597218,-171},{8097353243062439,-171},
{4945047348320609,-170},{5665145599947913,-170},{5905178350490349,-170},{7345374853744958,-170},{7553527466597218,-170},{8993723969851828,-170},
{4945047348320608,-169},{6145211101032784,-169},{6593396464427478,-169},{7952960905590530,-169},{8097353243062439,-169},{8241745580534348,-169},
{5545129224676696,-168},{6145211101032783,-168},{6145211101032784,-168},{7193478340783565,-168},{8097353243062439,-168},{8241745580534348,-168},
{5545129224676696,-167},{6145211101032783,-167},{6669344720908174,-167},{7193478340783566,-167},{8097353243062439,-167},{8917775713371132,-167},
{5283062414739000,-166},{5545129224676696,-166},{6145211101032783,-166},{6669344720908175,-166},{8621486862937830,-166},{8917775713371132,-166},
{4572810241406610,-165},{6145211101032784,-165},{6524952383436266,-165},{6669344720908174,-165},{6931411530845870,-165},{7193478340783566,-165},
{4572810241406610,-164},{5883144291095088,-164},{6145211101032784,-164},{6669344720908174,-164},{6931411530845870,-164},{7193478340783566,-164},
{4572810241406610,-163},{4936491838196707,-163},{5883144291095088,-163},{6669344720908174,-163},{7193478340783566,-163},{8140130793681947,-163},
{4572810241406611,-162},{4813560692558835,-162},{7193478340783566,-162},{7514382386954154,-162},{8503812390472043,-162},{8664264413557337,-162},
{4572810241406611,-161},{7193478340783566,-161},{7353930363868860,-161},{7514382386954154,-161},{8503812390472043,-161},{8664264413557337,-161},
{4572810241406611,-160},{7193478340783566,-160},{7353930363868860,-160},{7514382386954154,-160},{8664264413557337,-160},{8871508908665486,-160},
{4653108669473540,-159},{4813560692558835,-159},{5675899795986940,-159},{7193478340783565,-159},{8871508908665486,-159},{8918156547639775,-159},
{4596206477418038,-158},{4653108669473540,-158},{4813560692558835,-158},{7193478340783565,-158},{8112719636267173,-158},{8711056885580192,-158},
{4596206477418037,-157},{4756658500503332,-157},{4975601113617194,-157},{5894842409100801,-157},{7733325000068017,-157},{8711056885580192,-157},
{4596206477418037,-156},{4975601113617194,-156},{5894842409100801,-156},{6653631681499115,-156},{6814083704584409,-156},{7733325000068017,-156},
{4596206477418038,-155},{5624919079458576,-155},{6011823589157937,-155},{6814083704584409,-155},{7616343820010881,-155},{7842796306624947,-155},
{5143563010202693,-154},{5624919079458576,-154},{6219501392021492,-154},{6814083704584409,-154},{7408666017147326,-154},{8484604398966125,-154},
{4709432720725071,-153},{4813271622156848,-153},{6814083704584409,-153},{8220313474449053,-153},{8814895787011970,-153},{8918734688443747,-153},
{4671305212420078,-152},{4709432720725070,-152},{7031148849323220,-152},{8786733761386204,-152},{8890861733219969,-152},{8918734688443748,-152},
{4671305212420078,-151},{6705551132215004,-151},{6922616276953814,-151},{7031148849323220,-151},{8673796588481158,-151},{9003798906125015,-151},
{4666900611884437,-150},{5164829064623009,-150},{8463338344545809,-150},{8571870916915214,-150},{8895266333755610,-150},{9003798906125015,-150},
{4666900611884437,-149},{7249659346071963,-149},{7358191918441369,-149},{8463338344545809,-149},{8571870916915214,-149},{8680403489284619,-149},
{4666900611884437,-148},{8463338344545809,-148},{8571870916915214,-148},{8680403489284619,-148},{8780126860582743,-148},{8888659432952148,-148},
{4666900611884437,-147},{6428903187686410,-147},{8463338344545809,-147},{8571870916915214,-147},{8839898897436997,-147},{8948431469806402,-147},
{4558368039515031,-146},{4666900611884436,-146},{4883965756623248,-146},{8188703463220564,-146},{8731366325067591,-146},{8978317488233530,-146},
{4883965756623248,-145},{5194620464517901,-145},{5411685609256711,-145},{5520218181626117,-145},{8435654626386502,-145},{8978317488233529,-145},
{4760490175040278,-144},{5194620464517901,-144},{5303153036887306,-144},{5845815898734334,-144},{8063262127700364,-144},{8171794700069770,-144},
{4760490175040278,-143},{5303153036887306,-143},{6628941296109133,-143},{6737473868478538,-143},{8063262127700364,-143},{8497392417177987,-143},
{5241415246095821,-142},{5303153036887306,-142},{5364890827678791,-142},{6628941296109133,-142},{7171604157956160,-142},{8497392417177986,-142},
{5303153036887306,-141},{5364890827678791,-141},{6628941296109132,-141},{6628941296109133,-141},{7563166856643559,-141},{8888955115865386,-141},
{5303153036887306,-140},{6628941296109132,-140},{6628941296109133,-140},{7096054076376346,-140},{8421842335598172,-140},{8648492580337615,-140},
{6567203505317648,-139},{6628941296109132,-139},{6628941296109133,-139},{6752416877692102,-139},{7638716938223373,-139},{8964505197445200,-139},
{4925402628988236,-138},{4987140419779721,-138},{6628941296109132,-138},{6628941296109133,-138},{7133829117166253,-138},{8459617376388079,-138},
{4925402628988236,-137},{5808040857944427,-137},{6628941296109132,-137},{6628941296109133,-137},{7544279336248606,-137},{8870067595470432,-137},
{4987140419779721,-136},{6218491077026779,-136},{6628941296109133,-136},{7326366152690869,-136},{8209004381647060,-136},{8742930182312382,-136},
{4987140419779721,-135},{6156753286235295,-135},{6218491077026779,-135},{6423716186567956,-135},{6628941296109133,-135},{7039391515191485,-135},
{4987140419779721,-134},{6218491077026779,-134},{6423716186567956,-134},{6628941296109133,-134},{7039391515191485,-134},{8065517062897368,-134},
{4612562030384790,-133},{4817787139925967,-133},{4987140419779721,-133},{7039391515191485,-133},{8065517062897368,-133},{8234870342751122,-133},
{4771909441655183,-132},{5023012249467144,-132},{7003519685504062,-132},{7111135174566331,-132},{8029645233209945,-132},{8280748041021906,-132},
{4951268590092298,-131},{5023012249467144,-131},{7111135174566331,-131},{8011709318366233,-131},{8029645233209945,-131},{8101388892584791,-131},
{5023012249467144,-130},{5040948164310855,-130},{6031201882329314,-130},{8011709318366234,-130},{8029645233209945,-130},{8533740049641030,-130},
{4951268590092298,-129},{5399666461185085,-129},{6031201882329314,-129},{6031201882329315,-129},{7021455600347774,-129},{8011709318366233,-129},
{4951268590092298,-128},{5266091700260830,-128},{6031201882329314,-128},{6031201882329315,-128},{6571168528447823,-128},{7021455600347774,-128},
{5266091700260830,-127},{5648646791295073,-127},{6031201882329314,-127},{6571168528447823,-127},{7404010691382016,-127},{8776819500434718,-127},
{5042837365118019,-126},{6031201882329315,-126},{6571168528447823,-126},{7404010691382016,-126},{8685250725408996,-126},{8776819500434717,-126},
{5074814154743709,-125},{6031201882329315,-125},{6278293011632138,-125},{6571168528447823,-125},{6864044045263508,-125},{7404010691382016,-125},
{5074814154743709,-124},{5074814154743710,-124},{5553008018536512,-124},{7882204555174819,-124},{8067522902151936,-124},{8360398418967621,-124},
{4627506682113760,-123},{5074814154743709,-123},{5074814154743710,-123},{8360398418967621,-123},{8807705891597571,-123},{8962137847411835,-123},
{4627506682113760,-122},{5074814154743709,-122},{5074814154743710,-122},{5676553583187924,-122},{6278293011632138,-122},{8807705891597571,-122},
{4627506682113760,-121},{5074814154743709,-121},{5074814154743710,-121},{5676553583187924,-121},{7913090946337671,-121},{8807705891597571,-121},
{4627506682113760,-120},{5074814154743709,-120},{5074814154743710,-120},{5676553583187924,-120},{6493952550540690,-120},{8807705891597571,-120},
{5074814154743709,-119},{5721792771469366,-119},{5784383352642200,-119},{6493952550540691,-119},{7095691978984905,-119},{7913090946337671,-119},
{5074814154743709,-118},{5182643924197986,-118},{5784383352642200,-118},{6493952550540691,-118},{7095691978984905,-118},{7913090946337671,-118},
{5074814154743709,-117},{5730468467915062,-117},{5784383352642200,-117},{6547867435267829,-117},{7913090946337671,-117},{7940048388701241,-117},
{5047856712380141,-116},{5182643924197986,-116},{5730468467915062,-116},{6278293011632138,-116},{6547867435267828,-116},{7230479190802750,-116},
{5730468467915062,-115},{5797862073823984,-115},{6278293011632138,-115},{7230479190802750,-115},{8047878158155517,-115},{8663096307781516,-115},
{5422859393102062,-114},{5730468467915062,-114},{7163085584893827,-114},{7230479190802750,-114},{8047878158155517,-114},{8663096307781516,-114},
{5422859393102062,-113},{5730468467915062,-113},{6172864754545907,-113},{7163085584893827,-113},{7230479190802750,-113},{8850597648142477,-113},
{4845675894653373,-112},{5235358052741102,-112},{6172864754545906,-112},{7057657327807596,-112},{7163085584893827,-112},{7605481871524672,-112},
{4792961766110257,-111},{5704111403643504,-111},{6172864754545906,-111},{7110371456350712,-111},{7136728520622270,-111},{7163085584893827,-111},
{4753426169702920,-110},{4766604701838699,-110},{7110371456350712,-110},{7136728520622269,-110},{7136728520622270,-110},{8087413754562853,-110},
{4753426169702920,-109},{4792961766110257,-109},{7057657327807596,-109},{7123549988486490,-109},{7136728520622270,-109},{7189442649165385,-109},
{4746836903635030,-108},{4753426169702920,-108},{4792961766110257,-108},{7123549988486491,-108},{7136728520622270,-108},{7189442649165385,-108},
{4753426169702920,-107},{4760015435770809,-107},{7123549988486491,-107},{7136728520622270,-107},{7156496318825938,-107},{8325085063047999,-107},
{4628230114413020,-106},{4760015435770810,-106},{4792961766110257,-106},{5941782712128650,-106},{7123549988486490,-106},{7189442649165385,-106},
{4760015435770810,-105},{4792961766110257,-105},{5908836381789203,-105},{5941782712128650,-105},{7189442649165385,-105},{7730906791835134,-105},
{4760015435770810,-104},{5908836381789203,-104},{5941782712128650,-104},{6549139515477294,-104},{7730906791835134,-104},{8945620398532422,-104},
{4760015435770810,-103},{5671050640793775,-103},{6093621912965811,-103},{6549139515477294,-103},{7427228390160813,-103},{7730906791835134,-103},
{4911854636607971,-102},{5789943511291489,-102},{6146622122784630,-102},{7427228390160812,-102},{7591960041858050,-102},{8470048916541568,-102},
{4532256634515068,-101},{4911854636607971,-101},{6146622122784630,-101},{6169541513384391,-101},{7308335519663099,-101},{8186424394346617,-101},
{4532256634515068,-100},{5410345509198587,-100},{6169541513384391,-100},{7177982953865505,-100},{7308335519663099,-100},{8186424394346617,-100},
{4532256634515068,-99},{5410345509198586,-99},{6146622122784630,-99},{7733772302955525,-99},{8186424394346618,-99},{8611861177639044,-99},
{4532256634515068,-98},{5410345509198586,-98},{6146622122784630,-98},{7818286087553596,-98},{8186424394346618,-98},{8696374962237114,-98},
{4532256634515068,-97},{4787231918460316,-97},{5098788713829451,-97},{6543409667827354,-97},{7818286087553596,-97},{8186424394346618,-97},
{4787231918460317,-96},{5665320793143835,-96},{6458895883229283,-96},{6543409667827354,-96},{8497981189715752,-96},{8696374962237114,-96},
{5665320793143835,-95},{6543409667827354,-95},{6642606554088035,-95},{7619892315032234,-95},{8497981189715752,-95},{8696374962237114,-95},
{4886428804720997,-94},{5665320793143835,-94},{6543409667827354,-94},{6642606554088035,-94},{7570293871901893,-94},{7619892315032234,-94},
{5714919236274175,-93},{6543409667827354,-93},{6642606554088035,-93},{7570293871901893,-93},{7619892315032234,-93},{8034137530808823,-93},
{5382413236024402,-92},{5714919236274176,-92},{6129164452050764,-92},{6791401883479056,-92},{8034137530808823,-92},{8200390530933710,-92},
{6129164452050764,-91},{6129164452050765,-91},{6791401883479056,-91},{7453639314907347,-91},{7827014922920529,-91},{8034137530808823,-91},
{4865994000839294,-90},{5093551412609292,-90},{6129164452050765,-90},{6978089687485646,-90},{7827014922920528,-90},{8034137530808823,-90},
{6129164452050765,-89},{6978089687485646,-89},{7080263706894166,-89},{7827014922920529,-89},{8489252354348820,-89},{8862627962362001,-89},
{6129164452050765,-88},{6604714079472465,-88},{6978089687485646,-88},{7402552305203088,-88},{8489252354348820,-88},{8862627962362001,-88},
{6129164452050765,-87},{6366939265761615,-87},{6765858378626926,-87},{6978089687485646,-87},{7402552305203088,-87},{8251477540637969,-87},
{5068007907757162,-86},{6129164452050764,-86},{6129164452050765,-86},{8251477540637970,-86},{8506912589159269,-86},{8964801981770521,-86},
{5068007907757162,-85},{5305782721468012,-85},{6129164452050764,-85},{6129164452050765,-85},{8251477540637970,-85},{8964801981770521,-85},
{4862162475111474,-84},{5717473586759388,-84},{5923319019405077,-84},{6129164452050765,-84},{8457322973283657,-84},{8964801981770521,-84},
{4862162475111474,-83},{5923319019405076,-83},{6026241735727920,-83},{6129164452050765,-83},{8354400256960814,-83},{8964801981770521,-83},
{4528599518205136,-82},{5511628154113700,-82},{5923319019405077,-82},{6026241735727920,-82},{6540855317342141,-82},{8964801981770521,-82},
{4528599518205136,-81},{5511628154113700,-81},{5974780377566499,-81},{6026241735727920,-81},{6026241735727921,-81},{8964801981770521,-81},
{4528599518205136,-80},{5768934944920810,-80},{6000511056647210,-80},{6026241735727920,-80},{6026241735727921,-80},{8964801981770521,-80},
{4631522234527980,-79},{5254321363306590,-79},{5897588340324366,-79},{6026241735727920,-79},{6540855317342141,-79},{7935574818542081,-79},
{5897588340324365,-78},{5897588340324366,-78},{6026241735727920,-78},{6090568433429698,-78},{6540855317342141,-78},{8578841795559856,-78},
{5575954851815478,-77},{5897588340324365,-77},{6026241735727920,-77},{6090568433429698,-77},{6540855317342141,-77},{8942872557039215,-77},
{4932687874797703,-76},{5897588340324366,-76},{6219221828833253,-76},{6540855317342140,-76},{6540855317342141,-76},{8257208307050968,-76},
{4932687874797703,-75},{5897588340324366,-75},{6219221828833253,-75},{6540855317342141,-75},{7399031812196554,-75},{7613210541787122,-75},
{4932687874797703,-74},{5361410728101874,-74},{5897588340324366,-74},{6219221828833253,-74},{6540855317342141,-74},{6969943564769347,-74},
{4718143751084099,-73},{4771688433481742,-73},{4932687874797703,-73},{5093321921990629,-73},{5361410728101874,-73},{6540855317342141,-73},
{4718143751084100,-72},{5200411286785913,-72},{5414955410499516,-72},{5576320245938513,-72},{5682678822487727,-72},{6649040864506531,-72},
{4556778915645103,-71},{4637461333364601,-71},{4718143751084100,-71},{4852005457078204,-71},{5523140957663907,-71},{5576320245938513,-71},
{4556778915645103,-70},{4570530480367548,-70},{4637461333364601,-70},{4718143751084100,-70},{4960191004242595,-70},{5013370292517201,-70},
{4534756698045743,-69},{4556778915645102,-69},{4609958203919709,-69},{4731895315806546,-69},{4769496068743529,-69},{4800653139418775,-69},
{4519178162708119,-68},{4534756698045743,-68},{4556778915645102,-68},{4591157827451218,-68},{4609958203919709,-68},{4769496068743529,-68},
{4519178162708119,-67},{4520789083273554,-67},{4534756698045743,-67},{4539589459742045,-67},{4556778915645102,-67},{4628758580388201,-67},
{4518647492391403,-66},{4519178162708120,-66},{4542811300872913,-66},{4558389836210536,-66},{4566444439037707,-66},{4581492304058613,-66},
{4507626928784081,-65},{4511123559880949,-65},{4518647492391403,-65},{4519178162708120,-65},{4523205464121704,-65},{4566444439037707,-65},
{4505613278077288,-64},{4507626928784081,-64},{4511123559880949,-64},{4518647492391403,-64},{4519178162708120,-64},{4531260066948875,-64},
{4505613278077288,-63},{4507626928784081,-63},{4510382069685912,-63},{4511123559880949,-63},{4513667880904459,-63},{4518647492391403,-63},
{4504871787882250,-62},{4506034917833931,-62},{4506143948394005,-62},{4508470208297367,-62},{4511123559880950,-62},{4518756522951477,-62},
{4504871787882250,-61},{4506034917833931,-61},{4506143948394005,-61},{4506725513369846,-61},{4508470208297367,-61},{4509960429929269,-61},
{4503944925138453,-60},{4504072161786263,-60},{4504526490114294,-60},{4504871787882250,-60},{4505562383418165,-60},{4506034917833931,-60},
{4503835894578380,-59},{4504617314586631,-59},{4505326116210281,-59},{4505562383418164,-59},{4505962299449331,-59},{4506979986665465,-59},
{4503763276193779,-58},{4503835894578380,-58},{4504226604582505,-58},{4504462871790388,-58},{4504617314586631,-58},{4504780963409913,-58},
{4503676848768617,-57},{4503681451782137,-57},{4503763276193779,-57},{4503835894578380,-57},{4503913115976500,-57},{4504617314586631,-57},
{4503681451782138,-56},{4503985734361101,-56},{4504008749428703,-56},{4504067558772742,-56},{4504290016940065,-56},{4504417871486911,-56},
{4503681451782138,-55},{4503710856454157,-55},{4503740261126177,-55},{4503792680865798,-55},{4503868115673023,-55},{4504008749428703,-55},
{4503655241912326,-54},{4503681451782138,-54},{4503710856454157,-54},{4503733871521759,-54},{4503740261126177,-54},{4503868115673023,-54},
{4503602822172704,-53},{4503606016974913,-53},{4503721092312925,-53},{4503733871521760,-53},{4503753040335011,-53},{4503842557255355,-53},
{4503602822172704,-52},{4503606016974913,-52},{4503615601381539,-52},{4503665152045024,-52},{4503705118301883,-52},{4503721092312925,-52},
{4503602822172704,-51},{4503606016974913,-51},{4503615601381539,-51},{4503630792306656,-51},{4503636398825147,-51},{4503652372836189,-51},
{4503602039086779,-50},{4503602822172704,-50},{4503606016974913,-50},{4503613612437472,-50},{4503615601381539,-50},{4503618013097821,-50},
{4503600833228638,-49},{4503610777948973,-49},{4503611685951911,-49},{4503614395523397,-49},{4503615601381538,-49},{4503622836530387,-49},
{4503600833228638,-48},{4503605656661203,-48},{4503605805588805,-48},{4503607011446946,-48},{4503610777948973,-48},{4503611685951911,-48},
{4503600833228638,-47},{4503601510621509,-47},{4503602188014381,-47},{4503602716479650,-47},{4503603096017319,-47},{4503605656661203,-47},
{4503599790735427,-46},{4503600453690969,-46},{4503601361693908,-46},{4503602188014380,-46},{4503603840655327,-46},{4503604004020257,-46},
{4503599709052961,-45},{4503599790735427,-45},{4503600040530732,-45},{4503600453690969,-45},{4503601361693908,-45},{4503603840655327,-45},
{4503599709052961,-44},{4503599790735427,-44},{4503600040530732,-44},{4503600287952084,-44},{4503600453690969,-44},{4503601693171679,-44},
{4503599709052962,-43},{4503600035782823,-43},{4503600444195151,-43},{4503600537747389,-43},{4503600619429854,-43},{4503601366441817,-43},
{4503599709052962,-42},{4503600000876477,-42},{4503600035782823,-42},{4503600082558942,-42},{4503600292699993,-42},{4503600444195151,-42},
{4503599709052962,-41},{4503599732441021,-41},{4503599755829081,-41},{4503599814123486,-41},{4503599907324239,-41},{4503600035782823,-41},
{4503599638888783,-40},{4503599679905758,-40},{4503599709052962,-40},{4503599732441021,-40},{4503599755829081,-40},{4503599767347367,-40},
{4503599633129640,-39},{4503599684961931,-39},{4503599732792507,-39},{4503599750069937,-39},{4503599755829080,-39},{4503599790383941,-39},
{4503599633129640,-38},{4503599656166213,-38},{4503599682961073,-38},{4503599684961931,-38},{4503599688720216,-38},{4503599732792507,-38},
{4503599633129640,-37},{4503599649406641,-37},{4503599655165784,-37},{4503599656166213,-37},{4503599665683643,-37},{4503599684961931,-37},
{4503599632129210,-36},{4503599636887925,-36},{4503599637131355,-36},{4503599646892215,-36},{4503599656166214,-36},{4503599684718501,-36},
{4503599632129210,-35},{4503599636887925,-35},{4503599637131355,-35},{4503599639388998,-35},{4503599646892215,-35},{4503599651164069,-35},
{4503599628499317,-34},{4503599630114999,-34},{4503599631000390,-34},{4503599632129210,-34},{4503599634386853,-34},{4503599637131355,-34},
{4503599628742748,-33},{4503599628897847,-33},{4503599633014601,-33},{4503599634386852,-33},{4503599641093011,-33},{4503599642620361,-33},
{4503599628742748,-32},{4503599628820297,-32},{4503599628897847,-32},{4503599630192548,-32},{4503599632704403,-32},{4503599634231753,-32},
{4503599628095396,-31},{4503599628510099,-31},{4503599628742748,-31},{4503599628820297,-31},{4503599628897847,-31},{4503599630037449,-31},
{4503599627694172,-30},{4503599627771721,-30},{4503599627940297,-30},{4503599628095396,-30},{4503599628510099,-30},{4503599628897847,-30},
{4503599627849270,-29},{4503599627940298,-29},{4503599628122351,-29},{4503599628328045,-29},{4503599628715793,-29},{4503599628874207,-29},
{4503599627416010,-28},{4503599627667217,-28},{4503599627803757,-28},{4503599627825631,-28},{4503599627849270,-28},{4503599628122351,-28},
{4503599627416010,-27},{4503599627541613,-27},{4503599627587126,-27},{4503599627598063,-27},{4503599627667217,-27},{4503599627825631,-27},
{4503599627405072,-26},{4503599627439649,-26},{4503599627459757,-26},{4503599627549019,-26},{4503599627598064,-26},{4503599627805523,-26},
{4503599627405072,-25},{4503599627439649,-25},{4503599627459757,-25},{4503599627466992,-25},{4503599627543379,-25},{4503599627549019,-25},
{4503599627374113,-24},{4503599627401456,-24},{4503599627405072,-24},{4503599627412307,-24},{4503599627417947,-24},{4503599627459757,-24},
{4503599627388581,-23},{4503599627394222,-23},{4503599627412306,-23},{4503599627423587,-23},{4503599627448477,-23},{4503599627476679,-23},
{4503599627379538,-22},{4503599627382941,-22},{4503599627388581,-22},{4503599627394222,-22},{4503599627411143,-22},{4503599627423587,-22},
{4503599627372197,-21},{4503599627377838,-21},{4503599627378375,-21},{4503599627379538,-21},{4503599627382941,-21},{4503599627390819,-21},
{4503599627371346,-20},{4503599627372197,-20},{4503599627374435,-20},{4503599627377838,-20},{4503599627378375,-20},{4503599627382941,-20},
{4503599627370809,-19},{4503599627373809,-19},{4503599627374436,-19},{4503599627374748,-19},{4503599627377123,-19},{4503599627383567,-19},
{4503599627370652,-18},{4503599627370809,-18},{4503599627373809,-18},{4503599627374436,-18},{4503599627375375,-18},{4503599627377123,-18},
{4503599627370652,-17},{4503599627370809,-17},{4503599627371279,-17},{4503599627372388,-17},{4503599627373027,-17},{4503599627373809,-17},
{4503599627370679,-16},{4503599627370863,-16},{4503599627371278,-16},{4503599627371762,-16},{4503599627372061,-16},{4503599627374409,-16},
{4503599627370679,-15},{4503599627370738,-15},{4503599627370863,-15},{4503599627371037,-15},{4503599627371278,-15},{4503599627372361,-15},
{4503599627370525,-14},{4503599627370679,-14},{4503599627370738,-14},{4503599627370766,-14},{4503599627370863,-14},{4503599627371337,-14},
{4503599627370603,-13},{4503599627370641,-13},{4503599627370680,-13},{4503599627370824,-13},{4503599627371307,-13},{4503599627371413,-13},
{4503599627370568,-12},{4503599627370603,-12},{4503599627370641,-12},{4503599627370680,-12},{4503599627370795,-12},{4503599627370901,-12},
{4503599627370513,-11},{4503599627370539,-11},{4503599627370552,-11},{4503599627370568,-11},{4503599627370603,-11},{4503599627370645,-11},
{4503599627370504,-10},{4503599627370513,-10},{4503599627370517,-10},{4503599627370539,-10},{4503599627370552,-10},{4503599627370603,-10},
{4503599627370517,-9},{4503599627370518,-9},{4503599627370538,-9},{4503599627370583,-9},{4503599627370603,-9},{4503599627370506,-8},
{4503599627370517,-8},{4503599627370518,-8},{4503599627370519,-8},{4503599627370539,-8},{4503599627370501,-7},{4503599627370502,-7},
{4503599627370506,-7},{4503599627370507,-7},{4503599627370517,-7},{4503599627370519,-7},{4503599627370500,-6},{4503599627370503,-6},
{4503599627370505,-6},{4503599627370508,-6},{4503599627370515,-6},{4503599627370521,-6},{4503599627370497,-5},{4503599627370499,-5},
{4503599627370500,-5},{4503599627370503,-5},{4503599627370505,-5},{4503599627370496,-4},{4503599627370497,-4},{4503599627370499,-4},
{4503599627370503,-4},{4503599627370497,-3},{4503599627370498,-3},{4503599627370503,-3},{4503599627370496,-2},{4503599627370497,-2},
{4503599627370499,-2},{4503599627370497,-1},{4503599627370496,1},{4503599627370499,1},{4503599627370496,2},{4503599627370497,2},
{4503599627370499,2},{4503599627370496,3},{4503599627370497,3},{4503599627370498,3},{4503599627370496,4},{4503599627370497,4},
{4503599627370499,4},{4503599627370506,4},{4503599627370507,4},{4503599627370518,4},{4503599627370496,5},{4503599627370497,5},
{4503599627370498,5},{4503599627370503,5},{4503599627370510,5},{4503599627370515,5},{4503599627370498,6},{4503599627370499,6},
{4503599627370500,6},{4503599627370501,6},{4503599627370514,6},{4503599627370505,7},{4503599627370518,7},{4503599627370520,7},
{4503599627370524,7},{4503599627370539,7},{4503599627370601,7},{4503599627370496,8},{4503599627370504,8},{4503599627370509,8},
{4503599627370519,8},{4503599627370582,8},{4503599627370606,8},{4503599627370496,9},{4503599627370504,9},{4503599627370517,9},
{4503599627370522,9},{4503599627370541,9},{4503599627370603,9},{4503599627370496,10},{4503599627370508,10},{4503599627370517,10},
{4503599627370520,10},{4503599627370583,10},{4503599627370605,10},{4503599627370521,11},{4503599627370542,11},{4503599627370583,11},
{4503599627370708,11},{4503599627370855,11},{4503599627371020,11},{4503599627370510,12},{4503599627370573,12},{4503599627370584,12},
{4503599627370615,12},{4503599627370666,12},{4503599627370979,12},{4503599627370536,13},{4503599627370589,13},{4503599627370599,13},
{4503599627370761,13},{4503599627370802,13},{4503599627371114,13},{4503599627370536,14},{4503599627370714,14},{4503599627370849,14},
{4503599627372052,14},{4503599627373261,14},{4503599627373614,14},{4503599627370737,15},{4503599627370826,15},{4503599627371049,15},
{4503599627371787,15},{4503599627371963,15},{4503599627373526,15},{4503599627370681,16},{4503599627370882,16},{4503599627370993,16},
{4503599627371050,16},{4503599627371138,16},{4503599627372700,16},{4503599627370681,17},{4503599627371507,17},{4503599627372243,17},
{4503599627377388,17},{4503599627380425,17},{4503599627385200,17},{4503599627370910,18},{4503599627371278,18},{4503599627372840,18},
{4503599627376194,18},{4503599627381619,18},{4503599627384006,18},{4503599627371576,19},{4503599627372174,19},{4503599627373139,19},
{4503599627375597,19},{4503599627382216,19},{4503599627383409,19},{4503599627370944,20},{4503599627372507,20},{4503599627372806,20},
{4503599627374702,20},{4503599627375298,20},{4503599627383111,20},{4503599627370944,21},{4503599627374702,21},{4503599627378757,21},
{4503599627379056,21},{4503599627390923,21},{4503599627429986,21},{4503599627373122,22},{4503599627376878,22},{4503599627384691,22},
{4503599627386868,22},{4503599627417820,22},{4503599627425930,22},{4503599627372033,23},{4503599627379845,23},{4503599627385780,23},
{4503599627404371,23},{4503599627439379,23},{4503599627443434,23},{4503599627372033,24},{4503599627411095,24},{4503599627432655,24},
{4503599627517504,24},{4503599627560621,24},{4503599627755934,24},{4503599627396954,25},{4503599627407734,25},{4503599627436016,25},
{4503599627549842,25},{4503599627723596,25},{4503599627745154,25},{4503599627409414,26},{4503599627434336,26},{4503599627436017,26},
{4503599627446796,26},{4503599627448477,26},{4503599627642108,26},{4503599627487539,27},{4503599627590586,27},{4503599627682852,27},
{4503599628228046,27},{4503599628607892,27},{4503599629204608,27},{4503599627513301,28},{4503599627590585,28},{4503599627708613,28},
{4503599627760137,28},{4503599628268790,28},{4503599628567148,28},{4503599627428525,29},{4503599627623838,29},{4503599627649600,29},
{4503599627760136,29},{4503599628099239,29},{4503599628736699,29},{4503599627399019,30},{4503599627483794,30},{4503599627679106,30},
{4503599627844912,30},{4503599628821474,30},{4503599628991026,30},{4503599627399019,31},{4503599627483794,31},{4503599628460356,31},
{4503599630774599,31},{4503599635657412,31},{4503599636803526,31},{4503599627399018,32},{4503599628195022,32},{4503599628640916,32},
{4503599629171584,32},{4503599630413482,32},{4503599632281831,32},{4503599627574073,33},{4503599628285302,33},{4503599628550636,33},
{4503599630594040,33},{4503599635476853,33},{4503599636984085,33},{4503599630503761,34},{4503599632191552,34},{4503599635386573,34},
{4503599640359665,34},{4503599664773728,34},{4503599676046585,34},{4503599628107495,35},{4503599629705005,35},{4503599634587818,35},
{4503599637074364,35},{4503599654917824,35},{4503599661488426,35},{4503599630948279,36},{4503599631747034,36},{4503599636629846,36},
{4503599647638744,36},{4503599668767506,36},{4503599672052807,36},{4503599640713904,37},{4503599647638744,37},{4503599651278284,37},
{4503599675692346,37},{4503599769709057,37},{4503599815251881,37},{4503599630326642,38},{4503599654740704,38},{4503599661665546,38},
{4503599689542028,38},{4503599773348597,38},{4503599811612341,38},{4503599644264883,39},{4503599668678946,39},{4503599672141367,39},
{4503599710493670,39},{4503599752396955,39},{4503599832563983,39},{4503599639026973,40},{4503599652965215,40},{4503599663441035,40},
{4503599720969491,40},{4503599741921134,40},{4503599843039804,40},{4503599720969491,41},{4503599736683223,41},{4503599848277715,41},
{4503599858753535,41},{4503599986061759,41},{4503600331321054,41},{4503599673029111,42},{4503599789861514,42},{4503599795099424,42},
{4503600092418339,42},{4503600702769902,42},{4503600835316036,42},{4503599638583101,43},{4503599667791201,43},{4503599702237212,43},
{4503599824307524,43},{4503600278142763,43},{4503600649591612,43},{4503599667791201,44},{4503599946377837,44},{4503600371004976,44},
{4503600556729399,44},{4503602719549013,44},{4503605532404112,44},{4503599899946731,45},{4503600371004975,45},{4503600417436082,45},
{4503600510298293,45},{4503601777432525,45},{4503603422762788,45},{4503599876731178,46},{4503600440651635,46},{4503600487082740,46},
{4503602248490769,46},{4503602951704544,46},{4503605300248581,46},{4503600487082740,47},{4503601661354760,47},{4503602951704544,47},
{4503603538840553,47},{4503614455522019,47},{4503629714311081,47},{4503599841907849,48},{4503602306529651,48},{4503605358287464,48},
{4503607764870384,48},{4503623023659447,48},{4503624901145241,48},{4503600164495294,49},{4503601983942206,49},{4503603216253107,49},
{4503612048939098,49},{4503620617076527,49},{4503627307728161,49},{4503603216253107,50},{4503612048939098,50},{4503614190973456,50},
{4503618475042169,50},{4503651134654652,50},{4503688342884411,50},{4503600003201572,51},{4503602145235928,51},{4503617404024991,51},
{4503659967340643,51},{4503679510198420,51},{4503736261285955,51},{4503609239121870,52},{4503623426893755,52},{4503624497910933,52},
{4503645779568759,52},{4503693697970304,52},{4503722073514071,52},{4503612786064841,53},{4503619879950784,53},{4503628044853904,53},
{4503638685682817,53},{4503700791856246,53},{4503714979628129,53},{4503628044853904,54},{4503704338799216,54},{4503711432685159,54},
{4503867567518754,54},{4504158555528121,54},{4504249037245317,54},{4503629818325389,55},{4503633365268361,55},{4503704338799217,55},
{4503706112270702,55},{4503940314521096,55},{4504321784247658,55},{4503668852033788,56},{4503745145979101,56},{4503746919450587,56},
{4503785953158985,56},{4504167422885548,56},{4504240169887890,56},{4503745145979101,57},{4503785953158985,57},{4503899507341212,57},
{4504126615705663,57},{4505693301791798,57},{4506528988247265,57},{4503688368887988,58},{4503956284432325,58},{4504069838614550,58},
{4504889555158789,58},{4505425386247461,58},{4507332734880274,58},{4503603203251319,59},{4503659980342431,59},{4504041450068994,59},
{4504069838614551,59},{4504337754158887,59},{4506245102791699,59},{4503659980342431,60},{4504337754158887,60},{4505567328975244,60},
{4506654961063819,60},{4507884535880176,60},{4513874497322949,60},{4504952541567066,61},{4505362399839184,61},{4507269748471997,61},
{4512377006962256,61},{4518918769404932,61},{4521913750126318,61},{4504306260954748,62},{4505362399839185,62},{4506008680451502,62},
{4506213609587561,62},{4506859890199878,62},{4516396633363940,62},{4503778191512530,63},{4504101331818689,63},{4505685540145343,63},
{4506536749893720,63},{4508120958220374,63},{4513638074982751,63},{4504101331818689,64},{4508120958220374,64},{4509500237410968,64},
{4519036980575030,64},{4521795538956220,64},{4551785047639001,64},{4505421505424234,65},{4506800784614829,65},{4514958248588296,65},
{4519036980575031,65},{4540869025284344,65},{4588552741104657,65},{4508840150608196,66},{4512918882594929,66},{4522455625758992,66},
{4535411014107016,66},{4572178707572672,66},{4583094729927328,66},{4508840150608196,67},{4535411014107016,67},{4551065855251179,67},
{4598749571071492,67},{4762913570853922,67},{4773829593208578,67},{4519396576768942,68},{4540509429090433,68},{4588193144910746,68},
{4646433286891805,68},{4651891298069133,68},{4890309877170695,68},{4524674789849315,69},{4535231216010060,69},{4582914931830373,69},
{4710131440050191,69},{4826611724012309,69},{4948550019151754,69},{4620042221489940,70},{4678282363470998,70},{4710131440050191,70},
{4826611724012309,70},{4916700942572560,70},{5902224335558004,70},{4574997612209814,71},{4723326972751124,71},{4961745551852686,71},
{5335297958794627,71},{5393538100775686,71},{6527390854302439,71},{4507430698289624,72},{4552475307569751,72},{4745849277391187,72},
{5051834770412938,72},{6243927665920751,72},{6869094184665187,72},{4518691850609656,73},{4757110429711218,73},{4779632734351282,73},
{5506149623976000,73},{6414779331102125,73},{6698242519483813,73},{4995529008812781,74},{5733307050757532,74},{6187621904320593,74},
{6243927665920751,74},{6527390854302439,74},{8798965122117750,74},{4541214155249719,75},{4654792868640485,75},{4881950295422015,75},
{6074043190929828,75},{7663177988210094,75},{8798965122117750,75},{5109107722203547,76},{5307628673089774,76},{5421207386480539,76},
{6613300281988351,76},{6811821232874578,76},{8231071555163922,76},{4822742963250506,77},{5108140532013096,77},{5534786099871304,77},
{6386142855206821,77},{7805393177496164,77},{8798965122117750,77},{4682462154345338,78},{4822742963250506,78},{5747625288705183,78},
{6173303666372942,78},{7805393177496164,78},{8798965122117750,78},{4609903774416627,79},{4682462154345338,79},{5854044883122123,79},
{7911812771913103,79},{8124651960746983,79},{8798965122117750,79},{4532509443535664,80},{4576042559928399,80},{4682462154345338,80},
{8663520264164834,80},{8798965122117749,80},{8905384716534689,80},{4576042559928398,81},{4682462154345338,81},{4771951141518163,81},
{4878370735935102,81},{5091209924768982,81},{8663520264164834,81},{4576042559928398,82},{4682462154345338,82},{5091209924768982,82},
{7264346306694184,82},{7370765901111123,82},{8854592894802346,82},{4576042559928398,83},{4682462154345338,83},{6230987912940053,83},
{7370765901111123,83},{8616963483699134,83},{8950129210121102,83},{4788881748762277,84},{5320979720846975,84},{6018148724106173,84},
{6124568318523113,84},{6230987912940053,84},{8311611643619465,84},{6018148724106173,85},{6018148724106174,85},{6124568318523113,85},
{6230987912940053,85},{6550246696190871,85},{7082344668275568,85},{4646636036100804,86},{6018148724106174,86},{6230987912940053,86},
{6550246696190871,86},{7082344668275568,86},{7708920195362361,86},{4646636036100804,87},{5486050752021476,87},{5568586267608727,87},
{8064005096857713,87},{8146540612444963,87},{8453857356280938,87},{4646636036100804,88},{5332392380103489,88},{5568586267608727,88},
{8064005096857713,88},{8146540612444963,88},{8607515728198925,88},{4646636036100804,89},{4800294408018792,89},{6627075882149865,89},
{7312832226152549,89},{8146540612444963,89},{8832296956447648,89},{4800294408018791,90},{5486050752021476,90},{6692492408852344,90},
{6775027924439594,90},{6940098955614096,90},{7844930198237247,90},{5101904822226508,91},{5636855959125335,91},{6322612303128019,91},
{7008368647130703,91},{8530686542239931,91},{8613222057827182,91},{5101904822226508,92},{5636855959125335,92},{7008368647130703,92},
{8530686542239931,92},{8613222057827182,92},{8798162110689344,92},{5636855959125335,93},{7275844215580117,93},{7560387206908681,93},
{8112405766686659,93},{8530686542239931,93},{8798162110689344,93},{4683624046673237,94},{5352312967796769,94},{5770593743350041,94},
{6775027924439594,94},{7275844215580117,94},{8112405766686660,94},{4683624046673237,95},{4808828119458367,95},{5770593743350041,95},
{7025436070009855,95},{7275844215580117,95},{8112405766686660,95},{4537085695289167,96},{4808828119458368,96},{5498851319180840,96},
{6460616943072513,96},{7025436070009855,96},{7150640142794986,96},{4558419973888106,97},{5917132094734112,97},{6042336167519242,97},
{7150640142794986,97},{7776660506720639,97},{8384148190855860,97},{4558419973888106,98},{5362980107096240,98},{6167540240304373,98},
{6596488155157114,98},{7150640142794986,98},{8384148190855860,98},{5362980107096239,99},{5362980107096240,99},{6167540240304373,99},
{6873564148976050,99},{7150640142794986,99},{8661224184674796,99},{5362980107096240,100},{5765260173700306,100},{5898599414943681,100},
{6972100373512506,100},{7552920209399052,100},{8938300178493732,100},{4960700040492173,101},{5362980107096240,101},{6457950158247646,101},
{6972100373512506,101},{8245610193946392,101},{8938300178493732,101},{4960700040492173,102},{5362980107096240,102},{5474850255757033,102},
{6804295150521316,102},{8591955186220062,102},{8938300178493732,102},{5189807610959404,103},{6804295150521316,103},{7206575217125383,103},
{8189675119615996,103},{8765127682356898,103},{8938300178493732,103},{4843462618685734,104},{5240375412144156,104},{6457950158247646,104},
{7909999747964013,104},{8658624806841750,104},{8938300178493733,104},{6575187580054084,105},{6890881398589733,105},{7323812638931821,105},
{8072437697809558,105},{8505368938151645,105},{8938300178493733,105},{6300103248979822,106},{6575187580054084,106},{6890881398589733,106},
{7323812638931821,106},{8072437697809558,106},{8505368938151645,106},{4555315043616403,107},{5118546949759998,107},{5867172008637734,107},
{7323812638931821,107},{8072437697809557,107},{8955244585328431,107},{4514705556155017,108},{5138851693490690,108},{5867172008637734,108},
{6595492323784778,108},{7323812638931821,108},{8995854072789817,108},{4514705556155017,109},{5867172008637734,109},{6595492323784778,109},
{7323812638931821,109},{7333965010797167,109},{8995854072789817,109},{4575619787347096,110},{7313660267066475,110},{7323812638931821,110},
{7333965010797167,110},{7344117382662514,110},{8955244585328431,110},{5487783293266193,111},{5497935665131539,111},{7273050779605088,111},
{7323812638931821,111},{7333965010797167,111},{7374574498258554,111},{4574844806366052,112},{5467478549535499,112},{5497935665131539,112},
{7323812638931821,112},{7374574498258554,112},{8246903497697308,112},{5497935665131539,113},{5954404908581610,113},{6421026523897027,113},
{7323812638931821,113},{8226598753966615,113},{8246903497697308,113},{4513930575173972,114},{5041466421681468,114},{5416716690208767,114},
{5518240408862232,114},{7476098216912019,114},{8226598753966616,114},{4513930575173972,115},{4828460357754453,115},{5041466421681468,115},
{7800586626112585,115},{8703372741147379,115},{8916378805074395,115},{4696576396127579,116},{5041466421681468,116},{6157258600643278,116},
{7800586626112585,116},{8358482715593490,116},{8703372741147379,116},{4513930575173972,117},{6076136498343137,117},{6978922613377932,117},
{7800586626112584,117},{8703372741147379,117},{8998953996713994,117},{5665304491975811,118},{7389754619745258,118},{7800586626112584,118},
{8622250638847238,118},{8703372741147379,118},{8784494843447520,118},{5665304491975811,119},{6486968504710464,119},{7389754619745258,119},
{8046563680446318,119},{8703372741147379,119},{8784494843447520,119},{5338205335341935,120},{5419327437642076,120},{6324724300110181,120},
{7135945323111595,120},{8703372741147379,120},{8784494843447521,120},{4885506904107883,121},{5419327437642076,121},{6324724300110181,121},
{7716853776379133,121},{8169552207613186,121},{8703372741147379,121},{6034270073476411,122},{6260619289093438,122},{6794439822627631,122},
{7328260356161824,122},{8007308003012903,122},{8703372741147379,122},{5192978222025050,123},{5306152829833564,123},{7748906281887505,123},
{8282726815421698,123},{8703372741147379,123},{8848599854464264,123},{5192978222025051,124},{7862080889696018,124},{8282726815421698,124},
{8558145627830494,124},{8703372741147379,124},{8848599854464264,124},{6317206592997694,125},{6600143112518977,125},{6737852518723375,125},
{8282726815421698,125},{8558145627830494,125},{8703372741147379,125},{6317206592997694,126},{6600143112518977,126},{6737852518723375,126},
{7510289667072536,126},{7579144370174735,126},{8703372741147379,126},{5621141854863218,127},{5965415370374213,127},{7089643741346856,127},
{7143463030224082,127},{8213872112319499,127},{8267691401196725,127},{5621141854863218,128},{5965415370374213,128},{6944416628029971,128},
{7089643741346856,128},{7896508241247117,128},{8068644999002615,128},{5158550870473951,129},{5317232806010142,129},{6124097305910403,129},
{6282779241446595,129},{6944416628029971,129},{7737826305710927,129},{5357597272668061,130},{5621141854863218,130},{6282779241446594,130},
{7143463030224082,130},{7737826305710927,130},{8862054676683570,130},{5489369563765639,131},{5621141854863218,131},{7010302773578760,131},
{7275235321321660,131},{7737826305710927,131},{8862054676683570,131},{5489369563765639,132},{5555255709314429,132},{7010302773578760,132},
{7341121466870449,132},{7374064539644844,132},{8862054676683570,132},{4976669987440910,133},{5522312636540034,133},{5555255709314429,133},
{6828421890545719,133},{7010302773578760,133},{7374064539644843,133},{4612908221374826,134},{5818800291509585,134},{6464660124479636,134},
{7209349175772871,134},{7374064539644843,134},{7374064539644844,134},{4612908221374826,135},{6464660124479636,135},{7374064539644843,135},
{7374064539644844,135},{8151696663712473,135},{8316412027584446,135},{4612908221374826,136},{7374064539644843,136},{7609651411629744,136},
{7845238283614645,136},{8622870407682274,136},{8990229570764753,136},{6431717051705241,137},{7374064539644844,137},{7609651411629744,137},
{7845238283614644,137},{8151696663712473,137},{8787585771554247,137},{5253782691780739,138},{6431717051705241,138},{7374064539644844,138},
{7609651411629744,138},{7845238283614644,138},{8787585771554247,138},{4982760065739375,139},{5253782691780739,139},{5707238558722308,139},
{5942825430707208,139},{6431717051705241,139},{7374064539644844,139},{4982760065739374,140},{5707238558722308,140},{5889671799622513,140},
{6431717051705241,140},{6702739677746606,140},{8334129904612678,140},{4756032132268590,141},{4982760065739374,141},{5889671799622513,141},
{6431717051705241,141},{6702739677746606,141},{7382923478158960,141},{4507156852512515,142},{4756032132268590,142},{6431717051705241,142},
{6907320264932101,142},{7836379345100529,142},{8107401971141893,142},{4756032132268590,143},{5458363278966233,143},{5840122636434048,143},
{6431717051705241,143},{7614905882247629,143},{8809733117839537,143},{4756032132268590,144},{4866768863695040,144},{5458363278966234,144},
{5945040165335737,144},{6431717051705241,144},{8809733117839537,144},{4756032132268590,145},{4866768863695040,145},{5945040165335737,145},
{5945040165335738,145},{6431717051705241,145},{8566394674654785,145},{4623430420510288,146},{4756032132268590,146},{5945040165335737,146},
{5945040165335738,146},{6188378608520489,146},{8444725453062409,146},{4866768863695040,147},{5701701722150986,147},{5945040165335737,147},
{6066709386928114,147},{6918393938074745,147},{8970019012454451,147},{4866768863695040,148},{5701701722150986,148},{5945040165335737,148},
{6005874776131926,148},{6310047830112865,148},{8970019012454451,148},{4562595809714100,149},{5701701722150986,149},{5975457470733831,149},
{6005874776131925,149},{6005874776131926,149},{8970019012454451,149},{4562595809714100,150},{5397528668170046,150},{5853788249141455,150},
{6005874776131926,150},{6918393938074745,150},{8970019012454451,150},{4562595809714100,151},{5397528668170046,151},{5929831512636690,151},
{6005874776131926,151},{6157961303122395,151},{8970019012454451,151},{4562595809714100,152},{5777744985646221,152},{5929831512636690,152},
{5967853144384308,152},{6005874776131926,152},{6157961303122395,152},{5703244762142625,153},{5777744985646220,153},{5967853144384308,153},
{6157961303122395,153},{6157961303122396,153},{8968475972462812,153},{5777744985646220,154},{5967853144384308,154},{6157961303122395,154},
{6157961303122396,154},{7108502096812833,154},{7563218637792604,154},{5777744985646220,155},{5967853144384308,155},{6157961303122395,155},
{6157961303122396,155},{7108502096812833,155},{8761671557838375,155},{4856106175764406,156},{5221871501336269,156},{5967853144384308,156},
{6157961303122395,156},{6157961303122396,156},{8761671557838375,156},{6157961303122396,157},{6509275636789948,157},{7108502096812833,157},
{7459816430480385,157},{7707728556835718,157},{8761671557838374,157},{6245789886539283,158},{6509275636789948,158},{7108502096812833,158},
{7459816430480385,158},{8586014391004598,158},{8673842974421487,158},{6201875594830840,159},{6509275636789948,159},{7108502096812833,159},
{7459816430480385,159},{8586014391004598,159},{8717757266129930,159},{4871679799659737,160},{5031763342598182,160},{6289704178247727,160},
{7707728556835718,160},{7867812099774164,160},{8586014391004599,160},{5031763342598182,161},{6289704178247727,161},{6289704178247728,161},
{7707728556835718,161},{8695800120275709,161},{8965669392485264,161},{4976870477962627,162},{6234811313612172,162},{6289704178247728,162},
{6998716367541723,162},{8256657203191268,162},{8695800120275709,162},{5031763342598182,163},{6289704178247727,163},{6289704178247728,163},
{7158799910480168,163},{8531121526369044,163},{8965669392485264,163},{5031763342598182,164},{6289704178247727,164},{6289704178247728,164},
{6724252044363948,164},{7410412852308386,164},{8531121526369043,164},{5592117679628511,165},{5603543370303290,165},{6289704178247728,165},
{6850058515278056,165},{7410412852308385,165},{7410412852308386,165},{5043189033272961,166},{5592117679628511,166},{5872294848143676,166},
{6850058515278057,166},{7410412852308385,166},{8388176519442766,166},{4608641167156741,167},{5603543370303290,167},{6569881346762892,167},
{6850058515278056,167},{7410412852308385,167},{7410412852308386,167},{4608641167156741,168},{6569881346762892,168},{6850058515278056,168},
{7410412852308385,168},{7410412852308386,168},{8811298694884208,168},{4608641167156741,169},{4927411010072169,169},{5207588178587333,169},
{7410412852308385,169},{7410412852308386,169},{8811298694884208,169},{5207588178587333,170},{5826592085444560,170},{7410412852308386,170},
{7593347776596389,170},{8212351683453615,170},{8608306875169571,170},{5207588178587333,171},{5613571818016607,171},{6309000515447860,171},
{7806368044024342,171},{8212351683453615,171},{8608306875169571,171},{5207588178587333,172},{5507061684302630,172},{5758294347017597,172},
{6309000515447859,172},{7912878177738319,172},{8763057851883878,172},{5613571818016607,173},{6309000515447860,173},{7110939346593089,173},
{7486837642882412,173},{7912878177738318,173},{8288776474027642,173},{4932235094372202,174},{5613571818016607,174},{6309000515447860,174},
{8154082392739968,174},{8487704767668746,174},{8956021223885198,174},{4932235094372202,175},{6021587220482645,175},{6883827105378287,175},
{7685765936523517,175},{8487704767668747,175},{8775118062633961,175},{4932235094372202,176},{6165293867965252,176},{6883827105378287,176},
{7685765936523517,176},{8487704767668747,176},{8775118062633961,176},{4510127718119315,177},{4644821799406988,177},{6165293867965252,177},
{6883827105378288,177},{7685765936523517,177},{8859669905355051,177},{4644821799406988,178},{5004088418113506,178},{6165293867965252,178},
{7602360342791322,178},{7685765936523517,178},{7769171530255712,178},{5004088418113506,179},{5584691143039379,179},{5722621655526540,179},
{6165293867965252,179},{7685765936523517,179},{7769171530255712,179},{4587307655270698,180},{4782752311894150,180},{6745896592891126,180},
{8709040873888102,180},{8898259873930743,180},{8981665467662937,180},{4699346718161955,181},{4782752311894149,181},{4949563499358539,181},
{6275961921074930,181},{6745896592891126,181},{7215831264707322,181},{4949563499358539,182},{5059422444668344,182},{6745896592891126,182},
{7132425670975127,182},{7215831264707321,182},{7215831264707322,182},{4532535530697566,183},{4866157905626344,183},{4949563499358539,183},
{7215831264707321,183},{7215831264707322,183},{8432370741113907,183},{4866157905626344,184},{4949563499358539,184},{7215831264707321,184},
{7215831264707322,184},{7824101002910614,184},{8348965147381713,184},{4949563499358539,185},{7215831264707321,185},{7215831264707322,185},
{7824101002910614,185},{8128235872012261,185},{8348965147381713,185},{4562023036524698,186},{5695156919199089,186},{7215831264707321,186},
{7215831264707322,186},{7824101002910614,186},{8128235872012261,186},{5665669413371957,187},{5695156919199089,187},{5888927150616009,187},
{7215831264707322,187},{7603371727541163,187},{8736505610215554,187},{5695156919199089,188},{6552379207661665,188},{7215831264707322,188},
{7603371727541163,188},{8542735378798633,188},{8736505610215554,188},{5225475093570354,189},{5695156919199089,189},{6884105236184493,189},
{7215831264707322,189},{8542735378798633,189},{8736505610215554,189},{4696818256287355,190},{5166500081916090,190},{6884105236184493,190},
{8073053553169898,190},{8542735378798634,190},{8601710390452897,190},{6884105236184493,191},{6884105236184494,191},{7353787061813229,191},
{7713420307491564,191},{7823468887441964,191},{8902368624476968,191},{6884105236184493,192},{6884105236184494,192},{7298762771838029,192},
{7353787061813229,192},{7823468887441964,192},{8902368624476968,192},{6884105236184493,193},{7273225987689960,193},{7904029961565234,193},
{8487711088823433,193},{8762832538699435,193},{8957392914452169,193},{4810817557916819,194},{6317143222679392,194},{6884105236184493,194},
{7159226686060496,194},{8487711088823433,194},{8762832538699435,194},{4810817557916819,195},{5563980390298105,195},{6600624229431943,195},
{6786825048308127,195},{6884105236184493,195},{8390430900947066,195},{4810817557916819,196},{5422239886921830,196},{5563980390298105,196},
{6600624229431942,196},{6884105236184493,196},{8204230082070882,196},{4810817557916819,197},{5705720893674380,197},{6600624229431943,197},
{7309326746313320,197},{7345427504936680,197},{8949033357575620,197},{4810817557916819,198},{5705720893674380,198},{6078122531426749,198},
{6153172561553162,198},{7681728384065689,198},{7756778414192101,198},{4810817557916819,199},{5929446727613771,199},{6153172561553162,199},
{7048075897310723,199},{7980504248131491,199},{8651681749949663,199},{5702872380794689,200},{5929446727613771,200},{7048075897310724,200},
{7533052580252710,200},{8018029263194698,200},{8651681749949663,200},{5593145848484762,201},{5686958386142778,201},{5929446727613771,201},
{8018029263194698,201},{8651681749949663,201},{8894170091420656,201},{5006399630558805,202},{6171935069084765,202},{6610005483197744,202},
{7439240042594695,202},{8651681749949663,202},{8894170091420656,202},{4959493361729797,203},{5248887972029798,203},{6171935069084764,203},
{6750724289684767,203},{7439240042594695,203},{7728634652894697,203},{4615235485274833,204},{4959493361729797,204},{5248887972029798,204},
{6171935069084764,204},{6950284860989731,204},{7439240042594695,204},{4615235485274833,205},{6027237763934764,205},{6561109965037247,205},
{6950284860989731,205},{8262506853997180,205},{8506984444799662,205},{5443475420006039,206},{5493365562832280,206},{6027237763934764,206},
{6561109965037248,206},{6950284860989731,206},{8262506853997180,206},{4804849809922352,207},{5493365562832281,207},{8067919406020938,207},
{8127755795504624,207},{8601791607123422,207},{8661627996607108,207},{5273833043442919,208},{7000175003815971,208},{7534047204918455,208},
{8067919406020938,208},{8067919406020939,208},{8821324126512784,208},{5164066783748237,209},{6670876224731929,209},{7000175003815971,209},
{7534047204918455,209},{8067919406020939,209},{8821324126512784,209},{4804849809922352,210},{5383599303137600,210},{8067919406020938,210},
{8157673990246467,210},{8601791607123422,210},{8691546191348951,210},{4804849809922352,211},{5109183653900897,211},{8067919406020938,211},
{8082878503391860,211},{8616750704494343,211},{8876207256360125,211},{4575311452798413,212},{5513327579070490,212},{5643055855003381,212},
{8082878503391860,212},{8472063331190531,212},{8876207256360125,212},{4575311452798414,213},{4879645296776959,213},{5109183653900897,213},
{7549006302289376,213},{7663775480851345,213},{7778544659413315,213},{4994414475338928,214},{6119543466824880,214},{7549006302289376,214},
{7663775480851345,214},{7663775480851346,214},{8674135293775328,214},{5051799064619912,215},{6119543466824880,215},{6891659473838112,215},
{7606390891570361,215},{7663775480851346,215},{8674135293775328,215},{4723125650394280,216},{6119543466824880,216},{6357787272735629,216},
{6505601470331496,216},{7663775480851346,216},{8912379099686077,216},{5109183653900897,217},{6243018094173660,217},{7663775480851345,217},
{7663775480851346,217},{8288077290268712,217},{8797609921124108,217},{5421334558609580,218},{5676100874037278,218},{7663775480851346,218},
{7975926385560028,218},{8230692700987727,218},{8288077290268712,218},{5265259106255238,219},{5421334558609580,219},{5676100874037278,219},
{6669938177444312,219},{7663775480851346,219},{8288077290268712,219},{4969186517035168,220},{5109183653900897,220},{5676100874037278,220},
{5889560915672605,220},{7663775480851345,220},{7803772617717075,220},{4969186517035168,221},{5889560915672605,221},{6776668198261975,221},
{7450315439216019,221},{7663775480851345,221},{7803772617717075,221},{5055818643492066,222},{6209750978125594,222},{6776668198261975,222},
{7450315439216019,222},{8337422721805390,222},{8497517753031884,222},{4788993591447908,223},{5055818643492066,223},{5142450769948963,223},
{5942925926081436,223},{6830033208670806,223},{8517615647392650,223},{4788993591447908,224},{5142450769948963,224},{5942925926081436,224},
{6830033208670806,224},{6830033208670807,224},{8027281606532784,224},{4788993591447908,225},{5344301727150447,225},{5942925926081436,225},
{6830033208670807,225},{8027281606532783,225},{8027281606532784,225},{5200060185321256,226},{5942925926081436,226},{6830033208670807,226},
{8027281606532783,226},{8027281606532784,226},{8625905805463772,226},{5632784810808830,227},{6830033208670806,227},{7428657407601795,227},
{8027281606532784,227},{8625905805463772,227},{8979362983964827,227},{5632784810808830,228},{5870805155166841,228},{7306073897386828,228},
{7428657407601795,228},{8625905805463772,228},{8986509660036749,228},{4792566929483869,229},{5149597446020885,229},{5870805155166841,229},
{6469429354097829,229},{7789261262174773,229},{8506895633284766,229},{5391191128414858,230},{6599159540384718,230},{7306073897386828,230},
{7659531075887884,230},{7789261262174772,230},{8867499487857744,230},{5391191128414857,231},{5391191128414858,231},{5744648306915913,231},
{7668464420977786,231},{8514042309356689,231},{8746702646660758,231},{5391191128414857,232},{5451589549013350,232},{6348632512900843,232},
{7608066000379294,232},{7910058103371759,232},{8746702646660758,232},{4787206922429927,233},{5693183231407322,233},{5744648306915913,233},
{6650624615893308,233},{7608066000379294,233},{7807127952354578,233},{4787206922429927,234},{5542187179911090,234},{5744648306915913,234},
{7608066000379294,234},{8212050206364224,234},{8716503436361511,234},{4584745795425105,235},{4987968461919981,235},{6499628564397075,235},
{7457069948883061,235},{8162284718370403,235},{8716503436361511,235},{4584745795425105,236},{6499628564397075,236},{7457069948883061,236},
{8162284718370403,236},{8439394077365957,236},{8716503436361511,236},{4787206922429927,237},{5542187179911090,237},{5744648306915913,237},
{6499628564397076,237},{6927733974888862,237},{7153378258375827,237},{5328134474665196,238},{6499628564397076,238},{6713681269642969,238},
{6927733974888863,238},{7885175359374848,238},{8842616743860833,238},{4528334724553364,239},{4900029064173409,239},{6927733974888863,239},
{7299428314508908,239},{7885175359374848,239},{8684975109486681,239},{4787206922429927,240},{4900029064173410,240},{5970292590402877,240},
{6927733974888862,240},{7772353217631366,240},{8955438885604316,240},{4900029064173410,241},{4984645670481021,241},{5942087054967006,241},
{6871322904017121,241},{7772353217631366,241},{8955438885604316,241},{4900029064173410,242},{4928234599609280,242},{4984645670481021,242},
{5942087054967006,242},{6871322904017121,242},{7913380894810719,242},{4505151568071222,243},{6871322904017122,243},{7913380894810718,243},
{7913380894810719,243},{8434409890207517,243},{8814411208424963,243},{5639264254114802,244},{6209266231440970,244},{6681322244908398,244},
{7202351240305197,244},{7913380894810719,244},{8814411208424963,244},{5023234929163642,245},{6160293249511600,245},{7061323563125844,245},
{7202351240305197,245},{7913380894810719,245},{8529410219761878,245},{4505151568071222,246},{5308235917826726,246},{6586321915354037,246},
{7487352228968282,246},{7913380894810718,246},{8765438226495593,246},{5046248602976137,247},{5308235917826726,247},{5947278916590382,247},
{6373307582432818,247},{6635294897283407,247},{8765438226495593,247},{5046248602976137,248},{5177242260401432,248},{6373307582432819,248},
{6635294897283407,248},{7700366561889500,248},{8683417550999668,248},{4661230274881662,249},{4792223932306957,249},{5177242260401431,249},
{6373307582432819,249},{7700366561889500,249},{8298399222905193,249},{5046248602976137,250},{5177242260401432,250},{6373307582432818,250},
{6635294897283407,250},{7569372904464206,250},{8224341191590678,250},{4579209599385738,251},{4812729101180938,251},{5410761762196631,251},
{6373307582432818,251},{7102333900873806,251},{7569372904464206,251},{4579209599385738,252},{4812729101180937,252},{4812729101180938,252},
{7518109982279253,252},{7569372904464206,252},{8480655802515440,252},{4812729101180938,253},{5279768104771337,253},{6168255893693008,253},
{7335853402669006,253},{8224341191590678,253},{8480655802515440,253},{4812729101180938,254},{5279768104771337,254},{5724011999232172,254},
{6646692451848189,254},{7780097297129842,254},{8480655802515440,254},{4812729101180938,255},{5501890052001755,255},{5724011999232172,255},
{7557975349899424,255},{8136075327105032,255},{8480655802515440,255},{4601743974949658,256},{4664560891838778,256},{5501890052001754,256},
{5612951025616964,256},{7335853402669006,256},{8947694806105840,256},{4553499918223569,257},{4601743974949658,257},{5612951025616964,257},
{7335853402669006,257},{7391383889476610,257},{8947694806105840,257},{4553499918223569,258},{4609030405031173,258},{4612673620071931,258},
{7391383889476610,258},{8336130808214039,258},{8947694806105840,258},{4557143133264327,259},{4668204106879535,259},{4723734593687140,259},
{5085047079440645,259},{7391383889476610,259},{7863757348845325,259},{4557143133264327,260},{4612673620071931,260},{4668204106879536,260},
{4834795567302349,260},{5112448001340371,260},{6919010430107896,260},{4557143133264327,261},{4612673620071931,261},{6919010430107896,261},
{6974540916915501,261},{7252193350953523,261},{8099944078529682,261},{4557143133264327,262},{5203140444282823,262},{6974540916915501,262},
{7509477254318789,262},{8099944078529682,262},{8322066025760099,262},{4557143133264326,263},{4557143133264327,263},{7509477254318789,263},
{7529845784991546,263},{8322066025760099,263},{8857002363163388,263},{4557143133264326,264},{4557143133264327,264},{6439604579512213,264},
{7509477254318789,264},{8322066025760099,264},{8857002363163388,264},{4557143133264326,265},{4557143133264327,265},{6439604579512213,265},
{7509477254318789,265},{8322066025760099,265},{8990736447514210,265},{4557143133264326,266},{4702400117929429,266},{6439604579512213,266},
{7776945423020433,266},{8918107955181658,266},{8990736447514210,266},{4557143133264326,267},{6316054760497769,267},{6439604579512213,267},
{6563154398526657,267},{7442610212143378,267},{8990736447514210,267},{4891478344141382,268},{6439604579512213,268},{7275442606704851,268},
{7442610212143378,268},{7609777817581905,268},{7987730814883044,268},{4891478344141382,269},{5581957659107533,269},{6439604579512213,269},
{7275442606704850,269},{7275442606704851,269},{7442610212143378,269},{4767928525126938,270},{4891478344141381,270},{5356666914290688,270},
{6083460475423116,270},{7275442606704851,270},{8947118661090126,270},{4767928525126938,271},{4891478344141381,271},{5069550396185930,271},
{5959910656408672,271},{8289352685942037,271},{8947118661090126,271},{4562595356567337,272},{4891478344141381,272},{6261532527467664,272},
{7453514658749399,272},{8796307725560630,272},{8947118661090126,272},{5069550396185930,273},{5959910656408672,273},{6412343462997160,273},
{7453514658749399,273},{8796307725560630,273},{8947118661090126,273},{5069550396185930,274},{5959910656408672,274},{6336937995232412,274},
{7453514658749399,274},{8796307725560630,274},{8947118661090126,274},{5031847662303556,275},{6299235261350038,275},{6336937995232413,275},
{7453514658749399,275},{8570091322266385,275},{8796307725560630,275},{5031847662303556,276},{5582883317584932,276},{6336937995232412,276},
{7453514658749399,276},{7468020011703633,276},{8758604991678256,276},{5031847662303556,277},{6336937995232412,277},{6525451664644283,277},
{7453514658749399,277},{8381577652854515,277},{8758604991678256,277},{5031847662303556,278},{5078976079656523,278},{6054167491114607,278},
{7453514658749399,278},{8758604991678256,278},{8852861826384191,278},{4890462410244653,279},{5031847662303556,279},{5660828620091500,279},
{7453514658749399,279},{8758604991678256,279},{8852861826384191,279},{4890462410244653,280},{4890462410244654,280},{5818525404349770,280},
{6289809577879445,280},{8852861826384190,280},{8852861826384191,280},{4890462410244653,281},{5998883307661956,281},{6289809577879445,281},
{6580735848096934,281},{6871662118314422,281},{8852861826384191,281},{4571894048300839,282},{4890462410244653,282},{6289809577879445,282},
{6871662118314422,282},{8007725107458051,282},{8852861826384191,282},{4765388690385118,283},{4890462410244653,283},{5153746588735817,283},
{7134946296805585,283},{7523304195156284,283},{8852861826384190,283},{5153746588735817,284},{6081809582840933,284},{6206883302700469,284},
{7003304207560003,284},{8589577647893027,284},{8721219737138609,284},{6206883302700469,285},{7003304207560003,285},{7796440927726516,285},
{7931367201665120,285},{8589577647893027,285},{8721219737138609,285},{4623894047060467,286},{5548672856472561,286},{6740020029068840,286},
{7523304195156284,286},{8464503928033492,286},{8589577647893028,286},{4623894047060468,287},{4757178228652561,287},{5681957038064654,287},
{6348377946025119,287},{6606735847476747,287},{6740020029068840,287},{4623894047060468,288},{5681957038064654,288},{6606735847476747,288},
{6740020029068840,288},{7598156747684888,288},{7798083020073027,288},{4623894047060468,289},{5681957038064654,289},{6740020029068840,289},
{7102446297580817,289},{7598156747684888,289},{7798083020073027,289},{5681957038064654,290},{6740020029068840,290},{6740020029068841,290},
{7102446297580817,290},{7464872566092795,290},{8406072298970003,290},{5681957038064654,291},{6740020029068840,291},{7102446297580817,291},
{7102446297580818,291},{8341722422840993,291},{8768498567481980,291},{5681957038064654,292},{6301595100694742,292},{6740020029068840,292},
{6921233163324829,292},{7102446297580817,292},{7102446297580818,292},{5833954357788898,293},{6740020029068840,293},{6740020029068841,293},
{7102446297580817,293},{7283659431836806,293},{8552151371628726,293},{5833954357788898,294},{6740020029068840,294},{7102446297580817,294},
{8552151371628726,294},{8742148021284031,294},{8923361155540019,294},{5281531439621616,295},{6101382301473223,295},{6187597110901559,295},
{6740020029068840,295},{7102446297580817,295},{8923361155540019,295},{6463808569985199,296},{6740020029068841,296},{6938800194123462,296},
{7292442947236122,296},{7646085700348783,296},{7999728453461444,296},{5419637169163437,297},{5557742898705257,297},{5911385651817918,297},
{7292442947236122,297},{7784191429890603,297},{8966468560254187,297},{4759445739210735,298},{4867214250996155,298},{6601914299527020,298},
{7784191429890603,298},{8336614348057885,298},{8966468560254187,298},{4759445739210735,299},{6079828599116138,299},{6601914299527020,299},
{7123999999937902,299},{7784191429890603,299},{8636372845277836,299},{5557742898705257,300},{5995607125467028,300},{6079828599116139,300},
{8168171400759665,300},{8336614348057885,300},{8774478574819656,300},{5473521425056147,301},{5776675012086143,301},{7949239287378779,301},
{8252392874408775,301},{8336614348057885,301},{8774478574819656,301},{5473521425056147,302},{5776675012086143,302},{8100816080893777,302},
{8252392874408775,302},{8336614348057885,302},{8926055368334654,302},{4799858931130267,303},{5473521425056147,303},{7157732307504347,303},
{7578730380482896,303},{8420835821706996,303},{8926055368334654,303},{5473521425056147,304},{5852463408843642,304},{6315626866280247,304},
{6526125902769521,304},{7578730380482895,304},{8926055368334654,304},{4989329923024015,305},{5473521425056147,305},{7389259388589148,305},
{7578730380482895,305},{8631334858196270,305},{8926055368334654,305},{5263022388566872,306},{5473521425056146,306},{6526125902769521,306},
{7578730380482896,306},{7789229416972170,306},{7999837748728448,306},{5263022388566872,307},{5473521425056146,307},{6526125902769521,307},
{7789229416972170,307},{8526085339951633,307},{8683959617318589,307},{5263022388566872,308},{5973511284351675,308},{6526125902769521,308},
{7078740521187367,308},{7526105621360577,308},{8789209135563226,308},{4618287117868217,309},{4763032529271344,309},{5973511284351675,309},
{7026115762065049,309},{7881350069252978,309},{8789209135563226,309},{4513037599623581,310},{6263002107157928,310},{6526125902769521,310},
{7526105621360577,310},{8789209135563225,310},{8789209135563226,310},{4513037599623581,311},{5013027458919108,311},{6526125902769521,311},
{7526105621360577,311},{8789209135563226,311},{8914206600387107,311},{4513037599623581,312},{5013027458919108,312},{6588624635181462,312},
{6901118297241167,312},{8789209135563226,312},{8976705332799048,312},{4700533796859404,313},{5013027458919108,313},{6588624635181462,313},
{6901118297241167,313},{8789209135563225,313},{8789209135563226,313},{5013027458919108,314},{6432377804151609,314},{6588624635181462,314},
{6744871466211315,314},{6901118297241167,314},{8789209135563226,314},{4941468476386096,315},{6119884142091905,315},{6588624635181462,315},
{6744871466211315,315},{6901118297241167,315},{7682352452390429,315},{4785221645356244,316},{5566455800505507,316},{5664272514966176,316},
{5794261614068371,316},{7682352452390429,316},{8235780793976827,316},{4785221645356244,317},{5794261614068371,317},{5843169971298706,317},
{6673312483678303,317},{7682352452390429,317},{8235780793976827,317},{4785221645356244,318},{6673312483678303,318},{7039475382637767,318},
{7682352452390429,318},{8186872436746493,318},{8235780793976827,318},{5477007072339242,319},{7039475382637767,319},{8186872436746493,319},
{8235780793976827,319},{8833933499646358,319},{8878657863729490,319},{4785221645356244,320},{5383374351025774,320},{6298781598424434,320},
{7869617895017364,320},{8186872436746493,320},{8878657863729491,320},{4785221645356244,321},{5196108908398840,321},{5383374351025774,321},
{7084199746720899,321},{8327321518716694,321},{8972290585042958,321},{4644772563386043,322},{4785221645356244,322},{5383374351025774,322},
{6532863401708102,322},{8649806051879826,322},{8972290585042958,322},{5196108908398840,323},{5981527056695305,323},{6257195229201704,323},
{7318281550004567,323},{7635536091733696,323},{8972290585042957,323},{5981527056695305,324},{6257195229201703,324},{6257195229201704,324},
{7318281550004567,324},{7614742907122330,324},{7635536091733696,324},{5726652068800272,325},{6257195229201703,325},{6257195229201704,325},
{7318281550004567,325},{7614742907122330,325},{8293516746082644,325},{4665565747997409,326},{5302753217734991,326},{6257195229201704,326},
{7104992931332264,326},{7318281550004567,326},{8696622412536559,326},{4772210057333560,327},{5302753217734991,327},{5779974223468348,327},
{7211637240668415,327},{7318281550004567,327},{8696622412536559,327},{4772210057333560,328},{4825532212001636,328},{5541363720601669,328},
{5779974223468348,328},{7211637240668415,328},{8935232915403237,328},{4772210057333560,329},{4825532212001636,329},{5660668972035008,329},
{5779974223468348,329},{6018584726335025,329},{8935232915403237,329},{5422058469168330,330},{5965262571666950,330},{6018584726335025,330},
{6018584726335026,330},{6125229035671177,330},{8458011909669881,330},{5422058469168330,331},{5720321597751678,331},{5965262571666950,331},
{6018584726335025,331},{6018584726335026,331},{6125229035671177,331},{5422058469168330,332},{5720321597751678,332},{6018584726335025,332},
{7509900369251763,332},{7563222523919839,332},{8878745525210865,332},{4527269083418288,333},{4580591238086364,333},{5751973952994648,333},
{6018584726335025,333},{6018584726335026,333},{8282219268044169,333},{4527269083418288,334},{5032977208870317,334},{5299587982210695,334},
{6018584726335025,334},{6018584726335026,334},{7150401997189597,334},{4527269083418288,335},{5299587982210695,335},{6018584726335025,335},
{6378083098397191,335},{6584493361762312,335},{7150401997189597,335},{5659086354272860,336},{6018584726335025,336},{6018584726335026,336},
{6644693871737569,336},{7816076586645853,336},{8848127903471455,336},{5659086354272860,337},{6018584726335025,337},{6018584726335026,337},
{7433356314903240,337},{7816076586645853,337},{8129131159347125,337},{4963311509828976,338},{6018584726335025,338},{6018584726335026,338},
{7433356314903240,338},{8129131159347125,338},{8140742109187348,338},{5705530153633754,339},{6018584726335026,339},{6134694224737260,339},
{7073857942841075,339},{8129131159347124,339},{8129131159347125,339},{4777756848877781,340},{5705530153633754,340},{6018584726335026,340},
{7131912692042192,340},{8129131159347125,340},{8314685820298319,340},{4777756848877782,341},{5398170787606403,341},{6018584726335026,341},
{6204139387286220,341},{7630521925694658,341},{8935099759026941,341},{4777756848877782,342},{5398170787606403,342},{5708377756970715,342},
{6204139387286220,342},{7879826542520891,342},{8935099759026941,342},{4777756848877781,343},{5027061465704015,343},{6328791695699337,343},
{7131912692042192,343},{8004478850934008,343},{8807599847276864,343},{4777756848877781,344},{5027061465704015,344},{6079487078873103,344},
{6328791695699337,344},{7755174234107775,344},{8004478850934008,344},{4777756848877781,345},{5553274272288559,345},{6079487078873103,345},
{7228961427523231,345},{7554393985022061,345},{8329911408432839,345},{4735915259260900,346},{5262128065845445,346},{7228961427523230,346},
{8329911408432839,346},{8378435776173358,346},{8904648582757902,346},{4978537097963495,347},{5002799281833755,347},{5504749904548040,347},
{7779436417978034,347},{8329911408432839,347},{8378435776173358,347},{4978537097963495,348},{5278036777061157,348},{6678486437068427,348},
{7204699243652971,348},{8054673913205436,348},{8329911408432839,348},{4857226178612198,349},{4978537097963496,349},{6678486437068427,349},
{7083388324301673,349},{8054673913205436,349},{8904648582757902,349},{4654775234995574,350},{5140418029447456,350},{6678486437068427,350},
{6880937380685050,350},{8054673913205436,350},{8742767651273942,350},{5140418029447456,351},{5484464898481708,351},{5666630836032000,351},
{6678486437068427,351},{7892792981721476,351},{8742767651273942,351},{5140418029447456,352},{5484464898481708,352},{6172558636550213,352},
{6678486437068427,352},{8398720782239689,352},{8742767651273942,352},{6172558636550214,353},{6375009580166837,353},{6425522536809320,353},
{6678486437068427,353},{8601171725856312,353},{8651684682498795,353},{5413666935772894,354},{6172558636550214,354},{6425522536809320,354},
{6678486437068427,354},{7412121659524504,354},{7639829081462369,354},{4819141902606990,355},{4932995613575922,355},{5805741025322174,355},
{6678486437068427,355},{7159157759265398,355},{7778939270752544,355},{4932995613575923,356},{5110190078871304,356},{5413666935772894,356},
{5805741025322174,356},{8031903171011650,356},{8423977260560931,356},{5369368319449049,357},{5413666935772894,357},{5805741025322174,357},
{6767083669716117,357},{8031903171011650,357},{8423977260560931,357},{5587554672385612,358},{5805741025322174,358},{6242113731195301,358},
{7595530465138524,358},{7813716818075087,358},{8948947199081747,358},{4724729446687353,359},{5151181966512486,359},{6242113731195300,359},
{6242113731195301,359},{6767083669716117,359},{8686462229821339,359},{5151181966512486,360},{6242113731195301,360},{6504598700455709,360},
{6767083669716117,360},{6787579613536708,360},{8140996347479931,360},{4747206540711578,361},{6242113731195301,361},{6504598700455709,361},
{6767083669716117,361},{7191555039337616,361},{8140996347479931,361},{4747206540711577,362},{4747206540711578,362},{6242113731195301,362},
{7393542752238070,362},{7999505890939432,362},{8342984060380385,362},{4747206540711578,363},{5494660135953439,363},{6242113731195300,363},
{7737020921679024,363},{7999505890939432,363},{8261990860199840,363},{4747206540711578,364},{7494536608688297,364},{7737020921679024,364},
{7999505890939432,364},{8241990203930158,364},{8261990860199840,364},{4747206540711578,365},{5999629418204574,365},{6262114387464982,365},
{7494536608688297,365},{7737020921679024,365},{8241990203930158,365},{5262176151097554,366},{5737144448944166,366},{8361994141548250,366},
{8474474188786044,366},{8524475829460249,366},{8736959158046452,366},{4999691181837145,367},{5499660300020860,367},{5737144448944166,367},
{7787022562353228,367},{8236990039862738,367},{8736959158046452,367},{4999691181837145,368},{5499660300020860,368},{5737144448944166,368},
{7499536772755717,368},{8118247965401085,368},{8618217083584799,368},{5162172869749144,369},{6618340610849941,369},{7499536772755718,369},
{8074508351950739,369},{8236990039862738,369},{8811961619057760,369},{4559093100884257,370},{5143434076635900,370},{5880887343742921,370},
{6618340610849941,370},{6618340610849942,370},{7058938691802830,370},{4559093100884257,371},{5880887343742921,371},{6618340610849942,371},
{6838639651326385,371},{7058938691802830,371},{8821331015614381,371},{4559093100884257,372},{4779392141360701,372},{6618340610849942,372},
{6838639651326385,372},{6948789171564608,372},{7719835813232161,372},{6618340610849941,373},{6618340610849942,373},{6973013149568519,373},
{7169088212041052,373},{8083877748507361,373},{8457289080339182,373},{4504018340765146,374},{5330139742551811,374},{6618340610849941,374},
{6618340610849942,374},{6795676880209230,374},{6893714411445497,374},{4504018340765146,375},{5330139742551811,375},{6618340610849941,375},
{6618340610849942,375},{6893714411445497,375},{7995209613827716,375},{4641705241062924,376},{5418807877231455,376},{5929906109361054,376},
{6441004341490653,376},{6618340610849941,376},{6884345014888875,376},{4641705241062924,377},{4941588424467545,377},{5630022925956432,377},
{6441004341490653,377},{7395443247018473,377},{8860980384675893,377},{4641705241062924,378},{5135864083509678,378},{5452686656597144,378},
{5630022925956432,378},{8383760931911982,378},{8860980384675893,378},{4907709645101857,379},{4941588424467545,379},{5435747266914299,379},
{7395443247018473,379},{7429322026384162,379},{8383760931911983,379},{4924649034784701,380},{4941588424467545,380},{5435747266914299,380},
{7395443247018473,380},{7412382636701318,380},{8392230626753405,380},{4933118729626123,381},{5431512419493589,381},{6419830104387097,381},
{6913988946833852,381},{7403912941859895,381},{7412382636701318,381},{4937353577046834,382},{6419830104387097,382},{6913988946833852,382},
{7403912941859895,382},{7408147789280607,382},{8888506892910515,382},{4935236153336479,383},{4937353577046834,383},{7395443247018473,383},
{7408147789280606,383},{7410265212990962,383},{7416617484122029,383},{4926766458495056,384},{4937353577046834,384},{6171691971308543,384},
{7408147789280606,384},{7416617484122029,384},{8642486183542315,384},{4937353577046834,385},{5555581486032866,385},{6171691971308542,385},
{6789919880294575,385},{7408147789280606,385},{7416617484122029,385},{6171691971308542,386},{6171691971308543,386},{6794154727715285,386},
{7384856128466696,386},{7437791721225584,386},{8028493121976994,386},{5538642096350022,387},{6171691971308542,387},{6171691971308543,387},
{7437791721225584,387},{7717261743773622,387},{8951600138035331,387},{4615535080291685,388},{5248584955250206,388},{5710138463279374,388},
{6171691971308542,388},{6171691971308543,388},{6944476857541082,388},{4615535080291685,389},{5248584955250205,389},{5710138463279374,389},
{6171691971308543,389},{8360898737283921,389},{8941013019483553,389},{5248584955250205,390},{5710138463279374,390},{6171691971308543,390},
{6343188338237895,390},{6633245479337711,390},{8941013019483553,390},{5334333138714882,391},{5710138463279374,391},{6171691971308543,391},
{6633245479337711,391},{7137673079099217,391},{8941013019483553,391},{5710138463279374,392},{6128817879576204,392},{6633245479337711,392},
{7137673079099217,392},{7137673079099218,392},{8082217141023724,392},{5227147909384037,393},{5624390279814698,393},{5731575509145543,393},
{5914447420914514,393},{7137673079099217,393},{8146528278622231,393},{5227147909384037,394},{5624390279814698,394},{6182410494241627,394},
{7030487849768372,394},{7137673079099217,394},{8146528278622231,394},{4776312924287953,395},{5227147909384037,395},{6182410494241627,395},
{7137673079099217,395},{7588508064195301,395},{8994605634148976,395},{4776312924287952,396},{6182410494241627,396},{7588508064195301,396},
{7588508064195302,396},{8146528278622231,396},{8480773555267455,396},{5339856655658058,397},{6182410494241627,397},{7024964332825196,397},
{7309497956981837,397},{7588508064195301,397},{8146528278622231,397},{5339856655658058,398},{6182410494241627,398},{7309497956981837,398},
{7588508064195301,398},{8146528278622231,398},{8149290037093818,398},{5886829836198635,399},{5900638628556574,399},{6193457528127979,399},
{7588508064195301,399},{7588508064195302,399},{7867518171408766,399},{4777693803523747,400},{5886829836198635,400},{7588508064195301,400},
{7867518171408766,400},{8439347178193635,400},{8711452889228129,400},{4777693803523747,401},{7306045758892352,401},{7588508064195301,401},
{8439347178193635,401},{8711452889228129,401},{8711452889228130,401},{5058430009781954,402},{7025309552634145,402},{8149980476711715,402},
{8711452889228129,402},{8711452889228130,402},{9000819590710049,402},{4772515506389519,403},{5886829836198635,403},{7877874765677221,403},
{8149980476711715,403},{8430716682969923,403},{8711452889228129,403},{5886829836198635,404},{7877874765677221,404},{8149980476711715,404},
{8430716682969923,404},{8711452889228129,404},{8851820992357233,404},{4566278599307720,405},{4912883609518623,405},{7448139961066198,405},
{8149980476711715,405},{8430716682969923,405},{8711452889228129,405},{4798406992060656,406},{5829591527469651,406},{7448139961066198,406},
{8149980476711716,406},{8808668516238671,406},{8851820992357233,406},{6989786002090683,407},{7233272558760687,407},{7448139961066198,407},
{7663007363371709,407},{8149980476711716,407},{8851820992357233,407},{5006007733489133,408},{5586104970799648,408},{7233272558760687,408},
{7448139961066198,408},{7569883239401199,408},{8851820992357233,408},{5586104970799648,409},{5586104970799649,409},{6373802949538641,409},
{6409688764780167,409},{7448139961066198,409},{8271723755046717,409},{5586104970799648,410},{5979953960169145,410},{5997896867789908,410},
{6409688764780167,410},{7448139961066198,410},{7859931858056458,410},{5586104970799648,411},{5783029465484397,411},{5997896867789908,411},
{7134810311418312,411},{7448139961066198,411},{7859931858056458,411},{5586104970799648,412},{5635336094470835,412},{5684567218142023,412},
{5997896867789908,412},{7448139961066198,412},{7859931858056458,412},{4573001923941987,413},{5586104970799649,413},{5635336094470835,413},
{7497371084737385,413},{8916325961963251,413},{8971049663112843,413},{4523770800270800,414},{5635336094470835,414},{7472755522901792,414},
{7497371084737385,414},{8921818539441656,414},{8965557085634438,414},{4504647815913611,415},{6554045808686314,415},{7497371084737385,415},
{8440696360788456,415},{8965557085634438,415},{8990172647470032,415},{4553878939584798,416},{4667395256584171,416},{4692010818419764,416},
{4716626380255357,416},{8842479276456471,416},{8965557085634438,416},{4544317447406203,417},{4667395256584170,417},{4692010818419764,417},
{4716626380255357,417},{4913550874940106,417},{7013400665794053,417},{4667395256584170,418},{4692010818419764,418},{4716626380255357,418},
{6939553980287272,418},{7062631789465240,418},{8186403370398994,418},{4544317447406203,419},{4667395256584171,419},{5159706493296041,419},
{5865013523024705,419},{6816476171109304,419},{7062631789465239,419},{4544317447406203,420},{4667395256584171,420},{5865013523024705,420},
{5988091332202673,420},{6816476171109304,420},{8797520284537057,420},{4667395256584171,421},{5988091332202673,421},{6402283751655988,421},
{6732457770560614,421},{8674442475359090,421},{8797520284537057,421},{6195187541929331,422},{6298735646792659,422},{6402283751655988,422},
{6732457770560614,422},{7166179894328569,422},{8467346265632432,422},{5573898912749357,423},{6298735646792659,423},{6402283751655989,423},
{6609379961382646,423},{8363798160769103,423},{8467346265632432,423},{6091639437066002,424},{6402283751655989,424},{6609379961382646,424},
{8363798160769103,424},{8415572213200767,424},{8467346265632432,424},{5343865468451935,425},{6350509699224324,425},{6609379961382646,425},
{8208476003474110,425},{8363798160769103,425},{8415572213200767,425},{4751413657132861,426},{5550961678178593,426},{6891187458111733,426},
{7127120485699291,426},{8208476003474109,426},{8208476003474110,426},{5021752536576566,427},{5292091416020270,427},{7667798244586700,427},
{8208476003474110,427},{8478814882917814,427},{8737685145076136,427},{5021752536576565,428},{5027486845219257,428},{5292091416020270,428},
{8208476003474110,428},{8737685145076136,428},{9002289715877150,428},{4595760950542977,429},{6615114270025338,429},{6885453149469042,429},
{8208476003474109,429},{8634467589507698,429},{8904806468951403,429},{6344775390581633,430},{6615114270025337,430},{6615114270025338,430},
{7155792028912747,430},{7411795136749723,430},{8734817990754791,430},{6344775390581633,431},{6615114270025337,431},{6615114270025338,431},
{7013454703387530,431},{7155792028912747,431},{8336477557392598,431},{4893750982658077,432},{5164089862101782,432},{5491261632701366,432},
{6615114270025337,432},{8137307340711502,432},{8336477557392598,432},{4993080993363110,433},{5889602066063559,433},{6344775390581633,433},
{6615114270025338,433},{8336477557392598,433},{8606816436836303,433},{5889602066063560,434},{6252358168044448,434},{6344775390581633,434},
{6615114270025338,434},{6799948715099706,434},{8336477557392598,434},{4530994880677188,435},{5889602066063560,435},{6252358168044448,435},
{7703382575968004,435},{8336477557392598,435},{8517855608383043,435},{5437885135629411,436},{5896514854231408,436},{6344775390581633,436},
{6793035926931858,436},{7248209251449931,436},{8155099506402153,436},{4534451274761112,437},{5437885135629411,437},{6344775390581633,437},
{8155099506402153,437},{8155099506402154,437},{8380957971619228,437},{5097369240761837,438},{5663743600846485,438},{8155099506402153,438},
{8155099506402154,438},{8721473866486802,438},{8836131296137301,438},{4569015215600357,439},{4767222528146036,439},{5323227705978911,439},
{8155099506402153,439},{8370588789367455,439},{8495615401269728,439},{4569015215600357,440},{4767222528146036,440},{5493485653412698,440},
{8155099506402153,440},{8325357453835941,440},{8711104684235029,440},{4569015215600357,441},{4596964580712249,441},{5408356679695804,441},
{5493485653412698,441},{8325357453835941,441},{8881362631668816,441},{4511835606995356,442},{4909531110467931,442},{5107738423013610,442},
{8711104684235029,442},{8881362631668815,442},{8966491605385709,442},{4682093554429142,443},{5107738423013610,443},{6781728093048979,443},
{6866857066765872,443},{7037115014199660,443},{8711104684235029,443},{6696599119332086,444},{6781728093048979,444},{6866857066765872,444},
{7037115014199660,444},{7122243987916553,444},{7547888856501020,444},{5213989530362075,445},{6696599119332086,445},{6866857066765872,445},
{7122243987916553,445},{7547888856501020,445},{8604853576886564,445},{5128860556645181,446},{6696599119332085,446},{7278207033199090,446},
{7391925811218484,446},{8399178593669955,446},{8689982550603458,446},{4703215688060714,447},{5128860556645181,447},{6831440030983051,447},
{7693290834967771,447},{8399178593669955,447},{8689982550603458,447},{4703215688060714,448},{5128860556645181,448},{6551197140865334,448},
{7693290834967771,448},{8118935703552239,448},{8191636692785615,448},{6551197140865335,449},{7194944977149928,449},{7838692813434523,449},
{8118935703552239,449},{8399178593669955,449},{8762683539836833,449},{6873071059007632,450},{7194944977149928,450},{7838692813434523,450},
{8118935703552239,450},{8399178593669955,450},{8762683539836833,450},{5466269455391876,451},{6229323222723037,451},{7838692813434523,451},
{8118935703552239,451},{8601746580765684,451},{8762683539836833,451},{4764129132001180,452},{5044372022118897,452},{5144395537249579,452},
{5949080332605321,452},{8887576623910575,452},{8923620498907981,452},{4583909757014146,453},{5144395537249578,453},{5424638427367295,453},
{5949080332605321,453},{6491544175342050,453},{7576471860815510,453},{4583909757014146,454},{5817969856295815,454},{7576471860815509,454},
{7707582337125016,454},{7856714750933226,454},{8250046179861745,454},{6080190808914828,455},{6154757015818933,455},{7370795177601898,455},
{7576471860815509,455},{8250046179861745,455},{8792510022598475,455},{5612293173082203,456},{6080190808914828,456},{6828331334865168,456},
{7481405259503410,456},{7576471860815510,456},{8697443421286375,456},{5986363436057374,457},{6080190808914828,457},{7202401597840339,457},
{7388817115100601,457},{8418439759623304,457},{8604855276883567,457},{5191309223678306,458},{6080190808914828,458},{6734503962007714,458},
{7950542123790680,458},{7997455810219407,458},{8418439759623304,458},{4956740791534670,459},{5191309223678306,459},{5518465800224749,459},
{6080190808914828,459},{6407347385461271,459},{7623385547244236,459},{5191309223678306,460},{5518465800224749,460},{6080190808914828,460},
{6407347385461271,460},{7623385547244236,460},{8277698700337123,460},{5191309223678306,461},{5518465800224749,461},{6080190808914828,461},
{7178944754625975,461},{7401165150935106,461},{8617203312718071,461},{4956740791534670,462},{5493769728555740,462},{6629567781770401,462},
{7178944754625976,462},{8302394772006133,462},{8839423709027202,462},{4956740791534670,463},{6629567781770402,463},{6904256268198188,463},
{7166596718791471,463},{7178944754625976,463},{8839423709027202,463},{4831744584155282,464},{5793154286652536,464},{6629567781770402,464},
{6766912024984295,464},{6904256268198188,464},{8003010213909336,464},{4831744584155282,465},{5106433070583068,465},{6629567781770402,465},
{7316288997839869,465},{7940512110219642,465},{8077856353433535,465},{5106433070583069,466},{5643462007604138,466},{6629567781770402,466},
{7853317934860938,466},{8077856353433535,466},{8839423709027202,466},{5031586931058869,467},{5143856140345168,467},{6629567781770402,467},
{7241442858315670,467},{8077856353433535,467},{8802000639265103,467},{5143856140345168,468},{5505928283260951,468},{5830577356414635,468},
{6629567781770402,468},{8040433283671436,468},{8802000639265103,468},{4606827203324099,469},{5830577356414635,469},{6230072569092519,469},
{6442452432959904,469},{6629567781770401,469},{8839423709027202,469},{5830577356414635,470},{6230072569092519,470},{6429820175431460,470},
{7828053419804051,470},{8439928496349319,470},{8639676102688260,470},{5830577356414635,471},{6230072569092519,471},{6429820175431460,471},
{7434874335890389,471},{7828053419804051,471},{8439928496349319,471},{5025270802294648,472},{5443714401265196,472},{7634621942229331,472},
{7828053419804051,472},{8053065541199880,472},{8633359973924038,472},{4622617525234654,473},{6635883910534623,473},{7828053419804051,473},
{8037275219289325,473},{8053065541199880,473},{8633359973924038,473},{4622617525234653,474},{4622617525234654,474},{6039799155899910,474},
{7828053419804051,474},{8238601857819322,474},{8834686612454035,474},{4622617525234653,475},{5033165963249925,475},{8238601857819322,475},
{8339265177084320,475},{8540591815614318,475},{8834686612454036,475},{5033165963249925,476},{7642517103184608,476},{7735285261494329,476},
{7828053419804051,476},{8238601857819322,476},{8741918454144315,476},{5125934121559646,477},{6178951393364491,477},{7642517103184608,477},
{7735285261494330,477},{8238601857819322,477},{8741918454144315,477},{5079550042404785,478},{5125934121559646,478},{5400784459299573,478},
{6178951393364491,478},{7735285261494330,478},{8238601857819322,478},{4986781884095064,479},{6407417651949558,479},{6453801731104418,479},
{7596133024029748,479},{7735285261494329,479},{7828053419804051,479},{4508384395942120,480},{6407417651949557,480},{6453801731104418,480},
{7071351456721944,480},{7596133024029748,480},{7828053419804051,480},{4508384395942120,481},{4508384395942121,481},{5697099768022311,481},
{6121834828718225,481},{6407417651949557,481},{7071351456721944,481},{4508384395942120,482},{5697099768022311,482},{5943576860400952,482},
{6407417651949558,482},{7117735535876804,482},{7349655931651107,482},{4508384395942120,483},{4747583140018592,483},{5338301651907603,483},
{5697099768022311,483},{7349655931651107,483},{8186851535918759,483},{4508384395942120,484},{4747583140018592,484},{5398101337926721,484},
{5697099768022311,484},{6347617965930440,484},{7947652791842287,484},{4508384395942120,485},{4538284238951680,485},{5398101337926721,485},
{6347617965930439,485},{7297134593934158,485},{7947652791842287,485},{5398101337926721,486},{5749621105739260,486},{5996098198117901,486},
{6347617965930440,486},{8097152006890081,486},{8246651221937876,486},{5398101337926721,487},{5749621105739260,487},{6347617965930440,487},
{7222384986410260,487},{7745632239077543,487},{8246651221937876,487},{4874854085259439,488},{4960717827686810,488},{5398101337926721,488},
{6347617965930440,488},{8246651221937876,488},{8620399259557364,488},{4811218612639015,489},{4874854085259439,489},{5248602122878926,489},
{7745632239077543,489},{8246651221937876,489},{8246651221937877,489},{5216784386568715,490},{6059733670738324,490},{6091551407048535,490},
{6528934917288446,490},{6560752653598658,490},{8246651221937876,490},{5216784386568714,491},{6059733670738324,491},{6091551407048535,491},
{6560752653598658,491},{8481251845212938,491},{8918635355452848,491},{5216784386568715,492},{6059733670738324,492},{7244613256217209,492},
{7904720920628601,492},{8075686071283238,492},{8918635355452848,492},{4544800253053743,493},{5216784386568715,493},{5729679838532628,493},
{7904720920628601,493},{8161168646610557,493},{8918635355452848,493},{4544800253053743,494},{5302266961896033,494},{5931509807747345,494},
{6688976516589636,494},{7446443225431927,494},{7904720920628601,494},{4544800253053743,495},{4816680388315739,495},{5302266961896033,495},
{5574147097158030,495},{8561272644863533,495},{8875894067789189,495},{4816680388315739,496},{4874854085259439,496},{5574147097158030,496},
{6331613806000321,496},{7574667088422905,496},{8643199280014392,496},{4816680388315739,497},{5574147097158030,497},{6331613806000321,497},
{7574667088422905,497},{7846547223684901,497},{8390307494208895,497},{5574147097158030,498},{5816940383948177,498},{6088820519210174,498},
{6331613806000321,498},{6967683871447537,498},{7846547223684901,498},{5816940383948177,499},{6967683871447537,499},{7176341060258160,499},
{7302786953160908,499},{7846547223684902,499},{8997290711184262,499},{5753717437496803,500},{5816940383948177,500},{6967683871447537,500},
{7407115547566220,500},{8725410575922265,500},{8997290711184262,500},{4718361193651472,501},{5816940383948177,501},{6528252195328856,501},
{6967683871447537,501},{7187399709506879,501},{8725410575922265,501},{4718361193651472,502},{6528252195328855,502},{7176341060258160,502},
{7302786953160908,502},{7366009899612283,502},{7626831385625561,502},{4718361193651472,503},{5429673005032151,503},{5492895951483525,503},
{6528252195328855,503},{7302786953160908,503},{7626831385625561,503},{4718361193651472,504},{5348661896915987,504},{5429673005032151,504},
{6366229979096529,504},{7626831385625561,504},{8176120980773913,504},{4718361193651472,505},{4758866747709553,505},{6366229979096529,505},
{7626831385625561,505},{7707842493741724,505},{8176120980773913,505},{4682784870321895,506},{4758866747709553,506},{5151063357354084,506},
{5897951492064340,506},{7037036236419127,506},{8112898034322539,506},{4758866747709553,507},{4758866747709554,507},{5227145234741743,507},
{5695423721773932,507},{5897951492064340,507},{8511524109435212,507},{4758866747709554,508},{5160707555556297,508},{5227145234741743,508},
{5897951492064340,508},{7840717852112614,508},{8511524109435212,508},{4758866747709553,509},{5227145234741743,509},{7372439365080425,509},
{7840717852112614,509},{8112898034322539,509},{8913364917281956,509},{5227145234741743,510},{6836115832495755,510},{7372439365080425,510},
{7840717852112614,510},{7908762897665095,510},{7976807943217577,510},{5227145234741743,511},{5261167757517984,511},{7372439365080425,511},
{7840717852112614,511},{7908762897665095,511},{7908762897665096,511},{5227145234741743,512},{5261167757517984,512},{5295190280294224,512},
{7840717852112614,512},{7908762897665095,512},{8180943079875020,512},{5227145234741743,513},{5261167757517984,513},{5295190280294224,513},
{5397257848622946,513},{6584965327591539,513},{7840717852112614,513},{4633291495257446,514},{5227145234741743,514},{5397257848622946,514},
{5923066542554762,514},{6584965327591539,514},{7840717852112614,514},{4633291495257446,515},{5923066542554761,515},{5923066542554762,515},
{6254015935073150,515},{7314909158180799,515},{8536639159925633,515},{4964240887775835,516},{5227145234741743,516},{5923066542554762,516},
{7577813505146706,516},{7840717852112614,516},{8706751773806836,516},{5227145234741743,517},{5660162195588854,517},{5923066542554762,517},
{6750440023850734,517},{7577813505146706,517},{7840717852112614,517},{5227145234741743,518},{5660162195588854,518},{5923066542554762,518},
{6750440023850734,518},{7577813505146706,518},{7840717852112614,518},{5451389141309402,519},{5988792629296239,519},{6541666969571283,519},
{6750440023850734,519},{7512087418405229,519},{8706751773806836,519},{5062830017888050,520},{5988792629296238,520},{5988792629296239,520},
{6750440023850734,520},{7079070457558119,520},{8706751773806836,520},{5062830017888050,521},{5988792629296238,521},{6750440023850734,521},
{7079070457558119,521},{8438050029813418,521},{8901031335517512,521},{4898514801034358,522},{5451389141309402,522},{5988792629296239,522},
{7079070457558119,522},{8438050029813417,522},{8706751773806836,522},{5988792629296239,523},{6055968065294593,523},{6123143501292948,523},
{7079070457558119,523},{8034997413823290,523},{8438050029813417,523},{4831339365036004,524},{5988792629296239,524},{7859323397683300,524},
{8034997413823290,524},{8370874593815063,524},{8438050029813417,524},{4508388330971768,525},{4831339365036004,525},{7536372363619064,525},
{8370874593815063,525},{8438050029813417,525},{8680899481951762,525},{4508388330971768,526},{4521314476899304,526},{4831339365036003,526},
{4831339365036004,526},{6433168389429647,526},{8034997413823290,526},{4508388330971768,527},{4521314476899304,527},{4669863848003885,527},
{4831339365036004,527},{8034997413823290,527},{8047923559750827,527},{4521314476899304,528},{4589126089487827,528},{4669863848003885,528},
{4831339365036004,528},{8842374998983880,528},{8855301144911417,528},{4831339365036003,529},{4844265510963540,529},{6446094535357184,529},
{7227619828662700,529},{8842374998983881,529},{8855301144911417,529},{4629494968745856,530},{4831339365036003,530},{6446094535357184,530},
{7227619828662700,530},{8653456748621270,530},{8855301144911417,530},{4629494968745856,531},{4831339365036003,531},{6446094535357184,531},
{6742398056828637,531},{7846079163460679,531},{8855301144911417,531},{5046109907253688,532},{5436872553906446,532},{5827635200559204,532},
{6218397847211963,532},{7146086849408931,532},{7846079163460680,532},{5046109907253688,533},{5786868710932320,533},{7146086849408931,533},
{7496083006434806,533},{8546071477512427,533},{8936834124165186,533},{5786868710932320,534},{6796090692383058,534},{7146086849408931,534},
{7186853339035816,534},{7321084927921869,534},{8546071477512427,534},{5436872553906446,535},{6609160493864721,535},{6796090692383057,535},
{6796090692383058,535},{7671081084947743,535},{8936834124165186,535},{5874367750188789,536},{6702625593123889,536},{6796090692383058,536},
{7233585888665400,536},{8592804027142011,536},{8936834124165186,536},{4515149611712177,537},{4976011082809311,537},{5874367750188789,537},
{6749358142753473,537},{6796090692383058,537},{7233585888665400,537},{4515149611712177,538},{4976011082809311,538},{5425189416499050,538},
{6772724417568265,538},{6796090692383058,538},{7682764222355139,538},{4526832749119573,539},{6749358142753473,539},{6772724417568266,539},
{6784407554975661,539},{6866189516827434,539},{8960200398979978,539},{4520991180415875,540},{6749358142753473,540},{6778565986271964,540},
{6784407554975661,540},{6807773829790454,540},{8960200398979978,540},{4509308043008479,541},{4520991180415875,541},{6778565986271963,541},
{6778565986271964,541},{6781486770623812,541},{6807773829790454,541},{4523911964767724,542},{6661734612198003,542},{6778565986271964,542},
{6793169908031208,542},{6807773829790454,542},{8930992555461488,542},{4523911964767724,543},{4531213925647346,543},{6734754220994228,543},
{6778565986271964,543},{6807773829790454,543},{9004012164257713,543},{4523911964767724,544},{4531213925647346,544},{6734754220994228,544},
{6771264025392341,544},{6807773829790454,544},{7909543977463895,544},{5618380151561543,545},{5654889955959655,545},{6515695394605553,545},
{6698244416596116,545},{6880793438586679,545},{7924147899223139,545},{5060193116845200,546},{5399321325172867,546},{5581870347163430,546},
{5654889955959655,546},{7997167508019365,546},{8482334933939482,546},{4841134290456524,547},{5023683312447087,547},{5933983473317826,547},
{6492170508034170,547},{8555354542735708,547},{8761428451297654,547},{4659807743006999,548},{4744589795088915,548},{5023683312447087,548},
{5933983473317826,548},{7487252720986826,548},{8555354542735708,548},{5581870347163430,549},{6322606403870336,549},{6977337933954287,549},
{7208159203628654,549},{7487252720986826,549},{7766346238344998,549},{6649972168912312,550},{6977337933954287,550},{7208159203628654,550},
{7487252720986826,550},{7766346238344998,550},{8045439755703169,550},{5615439540740119,551},{6649972168912312,551},{6813655051433299,551},
{7487252720986826,551},{7766346238344998,551},{8045439755703169,551},{5336346023381948,552},{6158923521349348,552},{6649972168912311,552},
{6731813610172806,552},{6977337933954287,552},{8700171285787121,552},{5336346023381948,553},{6568130727651818,553},{6649972168912311,553},
{6690892889542559,553},{6977337933954287,553},{8290964079484651,553},{5315885663066824,554},{5336346023381948,554},{6568130727651818,554},
{6772734330803052,554},{8024979395388046,554},{8086360476333416,554},{5356806383697072,555},{6568130727651818,555},{6670432529227435,555},
{7591148743407992,555},{7984058674757798,555},{8290964079484651,555},{5356806383697071,556},{5356806383697072,556},{6568130727651818,556},
{6670432529227435,556},{7984058674757798,556},{8290964079484651,556},{5356806383697071,557},{5356806383697072,557},{5962468555674445,557},
{7681227588769112,557},{8896626251462024,557},{8994853734299475,557},{5053975297708385,558},{5356806383697071,558},{5356806383697072,558},
{5962468555674445,558},{7681227588769112,558},{8186625118539950,558},{5356806383697072,559},{5659637469685758,559},{5962468555674445,559},
{7382470821518591,559},{8186625118539950,559},{8896626251462024,559},{5158314258653085,560},{5356806383697072,560},{5659637469685758,560},
{6672469688596518,560},{8186625118539950,560},{8186625118539951,560},{4800767242980695,561},{5158314258653085,561},{5356806383697072,561},
{5560391407163765,561},{8186625118539950,561},{8186625118539951,561},{4662083946043120,562},{5004352266447389,562},{5560391407163765,562},
{7630585977823574,562},{8186625118539950,562},{8682855431149916,562},{5004352266447388,563},{5483410411060917,563},{5560391407163765,563},
{7630585977823574,563},{8186625118539950,563},{8682855431149916,563},{5004352266447388,564},{5560391407163765,564},{6835017764800434,564},
{7630585977823574,564},{8186625118539950,564},{8511721270947782,564},{5004352266447389,565},{5560391407163765,565},{6287564708082276,565},
{8340587110745647,565},{8426154190846714,565},{8982193331563091,565},{5047135806497922,566},{5560391407163765,566},{5603174947214299,566},
{7314075909413962,566},{8340587110745647,566},{8426154190846714,566},{5047135806497922,567},{5560391407163765,567},{7014664569030506,567},
{7314075909413962,567},{7827331510079804,567},{8126742850463260,567},{4790508006165001,568},{5047135806497922,568},{6308919758122402,568},
{7827331510079804,568},{8083959310412726,568},{8126742850463260,568},{5047135806497922,569},{5817019207496686,569},{6308919758122402,569},
{6800820308748119,569},{7827331510079805,569},{8083959310412726,569},{5047135806497922,570},{5817019207496686,570},{6308919758122402,570},
{6308919758122403,570},{7068125634101104,570},{8083959310412726,570},{5047135806497922,571},{6062969482809544,571},{6308919758122402,571},
{6308919758122403,571},{7950306647736234,571},{8329909585725584,571},{6062969482809544,572},{6185944620465974,572},{6308919758122402,572},
{7292720859373835,572},{8083959310412726,572},{8452884723382013,572},{6062969482809544,573},{6308919758122402,573},{6677845171091690,573},
{8083959310412726,573},{8391397154553799,573},{8452884723382013,573},{6677845171091690,574},{7350158456338100,574},{8083959310412726,574},
{8391397154553798,574},{8391397154553799,574},{8452884723382013,574},{5140655950386327,575},{5513631335219562,575},{6370407326950617,575},
{6677845171091690,575},{8391397154553798,575},{8391397154553799,575},{5140655950386327,576},{5788300409014553,576},{6677845171091690,576},
{8391397154553798,576},{8391397154553799,576},{8973504072489862,576},{5480862564873481,577},{5788300409014553,577},{6677845171091690,577},
{7089848781784176,577},{8391397154553798,577},{8391397154553799,577},{4794189880386004,578},{5788300409014553,578},{7089848781784176,578},
{7364517855579167,578},{8391397154553798,578},{8391397154553799,578},{4709138226764215,579},{4794189880386003,579},{5480862564873481,579},
{6677845171091690,579},{8221293847310221,579},{8391397154553799,579},{5180052049440636,580},{5480862564873481,580},{6677845171091690,580},
{7449569509200955,580},{8391397154553799,580},{8862310977230220,580},{4902069311291531,581},{5095000395818848,581},{7063707340146323,581},
{7449569509200955,581},{8391397154553799,581},{8862310977230220,581},{4902069311291531,582},{5866724733928114,582},{5906120832982424,582},
{7256638424673639,582},{7449569509200956,582},{7835431678255588,582},{4902069311291531,583},{4902069311291532,583},{5866724733928114,583},
{6175819410246244,583},{7835431678255588,583},{8530388523628351,583},{4902069311291532,584},{5538944360768887,584},{6175819410246244,584},
{6368750494773560,584},{7835431678255588,584},{8530388523628351,584},{4902069311291531,585},{5866724733928114,585},{6619763375196283,585},
{6910172354673316,585},{7333405917410142,585},{8086444558678312,585},{4902069311291531,586},{5866724733928114,586},{6494256934984922,586},
{7333405917410142,586},{8211950998889673,586},{8588470319523758,586},{5698163123138226,587},{6494256934984921,587},{6494256934984922,587},
{7960938118466950,587},{8211950998889673,587},{8588470319523758,587},{5300116217214879,588},{5698163123138226,588},{6494256934984921,588},
{6494256934984922,588},{7541363627254340,588},{7960938118466950,588},{4504022405368184,589},{5655107952559701,589},{6494256934984921,589},
{6494256934984922,589},{6913831426197532,589},{7017810281119630,589},{4504022405368184,590},{4765799078435538,590},{5655107952559701,590},
{6494256934984921,590},{6913831426197532,590},{8746268137669014,590},{4504022405368184,591},{4765799078435538,591},{4765799078435539,591},
{5185373569648149,591},{6494256934984921,591},{8746268137669014,591},{4765799078435538,592},{5604948060860759,592},{5630028006710230,592},
{6494256934984922,592},{6544416826683863,592},{8642289282746915,592},{4765799078435538,593},{5604948060860759,593},{5630028006710230,593},
{6494256934984922,593},{7358485863259613,593},{7828220246171165,593},{4963046351117108,594},{5630028006710230,594},{6494256934984922,594},
{7037535008387787,594},{7358485863259613,594},{8470121955914816,594},{4712246892622403,595},{5135213677949208,595},{6716584153515962,595},
{7037535008387787,595},{7679436718131439,595},{8767689011994268,595},{4814262823077382,596},{5135213677949208,596},{5358388970008797,596},
{5679339824880623,596},{7037535008387787,596},{8767689011994268,596},{4679291378255215,597},{4814262823077382,597},{5135213677949208,597},
{5358388970008797,597},{8037583455013195,597},{8395730191894953,597},{4679291378255214,598},{5000242233127040,598},{5358388970008797,598},
{8037583455013195,598},{8395730191894953,598},{8537607678325900,598},{4679291378255215,599},{5321193087998865,599},{5828123352920349,599},
{6537510785075083,599},{6925947362357993,599},{8716681046766778,599},{4679291378255215,600},{5828123352920349,600},{7179412494818734,600},
{7787571343356843,600},{8716681046766778,600},{8784166769177862,600},{4645548517049673,601},{4983370802524269,601},{7179412494818734,601},
{7787571343356843,601},{8108522198228669,601},{8412601622497724,601},{4645548517049673,602},{4983370802524269,602},{5912480505934203,602},
{7179412494818735,602},{8023771371795637,602},{8952881075205572,602},{4645548517049673,603},{4983370802524269,603},{5616836796966535,603},
{7263769647832589,603},{7475056203786403,603},{8192879351242524,603},{4645548517049673,604},{4983370802524269,604},{7475056203786403,604},
{7812878489261000,604},{8256344052712504,604},{8741988192670934,604},{4560010343778288,605},{4645548517049673,605},{4835548948040435,605},
{5025549379031196,605},{6693768354860303,605},{7622878058270238,605},{4560010343778288,606},{4645548517049673,606},{4835548948040434,606},
{6693768354860303,606},{7622878058270238,606},{8646987977175554,606},{4560010343778288,607},{4740548732545054,607},{4788048840292744,607},
{4835548948040434,607},{7670378166017928,607},{8646987977175554,607},{4740548732545054,608},{4835548948040434,608},{4883049055788125,608},
{5276353745871556,608},{8158683071596741,608},{8646987977175554,608},{4550548301554292,609},{4740548732545053,609},{4788048840292744,609},
{5025549379031196,609},{5263049917769649,609},{7229573368186807,609},{4550548301554292,610},{4740548732545053,610},{4788048840292744,610},
{7419573799177568,610},{7657074337916021,610},{8426585578259993,610},{4550548301554292,611},{4740548732545053,611},{4788048840292744,611},
{7657074337916021,611},{8426585578259993,611},{8616586009250754,611},{4550548301554291,612},{4769029807530897,612},{4778539323911820,612},
{4788048840292744,612},{4797558356673668,612},{8616586009250755,612},{4769029807530897,613},{4778539323911820,613},{4788048840292744,613},
{4797558356673668,613},{5087301892811040,613},{8616586009250755,613},{4778539323911820,614},{4788048840292744,614},{5077792376430117,614},
{5087301892811040,614},{5087301892811041,614},{8647462266140677,614},{4778539323911820,615},{4788048840292744,615},{4932920608361431,615},
{5087301892811040,615},{6274804586503303,615},{7481326312957413,615},{4788048840292744,616},{5087301892811040,616},{6129932818434616,616},
{6805629565696015,616},{7481326312957413,616},{7626198081026099,616},{4788048840292744,617},{5087301892811040,617},{6805629565696014,617},
{7481326312957413,617},{8301894828287497,617},{8938996254436493,617},{4788048840292744,618},{5087301892811040,618},{7143477939326713,618},
{7481326312957413,618},{8639743201918196,618},{8808667388733546,618},{5985061050365930,619},{7143477939326713,619},{7481326312957412,619},
{7481326312957413,619},{8808667388733546,619},{8881381900562243,619},{5985061050365930,620},{6648731588253997,620},{7143477939326713,620},
{7312402126142063,620},{7481326312957412,620},{7481326312957413,620},{7065028950605705,621},{7143477939326713,621},{7312402126142063,621},
{7481326312957412,621},{7481326312957413,621},{8561294213197187,621},{4560953044014437,622},{5399839501198873,622},{7481326312957412,622},
{7650250499772762,622},{8821250853695585,622},{8990175040510935,622},{4560953044014437,623},{6440582907078143,623},{6609507093893492,623},
{7481326312957412,623},{8718192190639205,623},{8887116377454554,623},{4528020282134952,624},{4696944468950302,624},{6960954610017778,624},
{7481326312957412,624},{8873517234960968,624},{8887116377454554,624},{4696944468950301,625},{5710489589842399,625},{6960954610017778,625},
{7129878796833127,625},{8042495443377807,625},{8887116377454554,625},{5828949539484039,626},{6454182049571729,626},{6960954610017778,626},
{7298802983648477,626},{8261883867366865,626},{8887116377454554,626},{5660025352668690,627},{6394952074750908,627},{6960954610017778,627},
{7298802983648477,627},{8092959680551515,627},{8827886402633734,627},{4916332892939360,628},{5262947004217170,628},{7248338746474768,628},
{7695881332099996,628},{8092959680551516,628},{8887116377454554,628},{5262947004217170,629},{5262947004217171,629},{7248338746474768,629},
{7695881332099996,629},{8092959680551516,629},{8887116377454554,629},{5262947004217170,630},{5262947004217171,630},{5436254059856076,630},
{7075031690835862,630},{8092959680551516,630},{8601923675409342,630},{4530211716546730,631},{5262947004217171,631},{5715968175871844,631},
{6168989347526516,631},{7639938508896842,631},{8601923675409342,631},{4530211716546730,632},{5262947004217170,632},{5396746994741257,632},
{5715968175871844,632},{8193888154898933,632},{8713809321815649,632},{4530211716546730,633},{4943725823086584,633},{5262947004217170,633},
{5489457590044507,633},{5715968175871844,633},{8646909326553606,633},{4530211716546730,634},{4756722302374066,634},{5489457590044507,634},
{5715968175871844,634},{8234186385066760,634},{8646909326553606,634},{4530211716546730,635},{4756722302374067,635},{5662764645683412,635},
{8646909326553606,635},{8740411086909864,635},{8966921672737201,635},{4530211716546730,636},{5662764645683412,636},{6522056108814629,636},
{6748566694641965,636},{7201587866296639,636},{8287389915255192,636},{5842524351332620,637},{6522056108814629,637},{6748566694641965,637},
{6975077280469302,637},{7201587866296639,637},{8107630209605984,637},{4620091569371334,638},{5662764645683412,638},{5842524351332619,638},
{6615557869170888,638},{8197510062430588,638},{8467149620904399,638},{5231307960351977,639},{5662764645683412,639},{5842524351332619,639},
{7064957133293906,639},{7586293671449945,639},{8017750356781381,639},{5231307960351977,640},{5536916155842298,640},{6363860889488659,640},
{7064957133293906,640},{7280685475959623,640},{8718846600586627,640},{5231307960351977,641},{6255996718155800,641},{6363860889488659,641},
{7891901866940267,641},{7999766038273125,641},{8718846600586627,641},{4763966117437377,642},{4961668401878166,642},{5123443789019117,642},
{5536916155842298,642},{8467149620904399,642},{8718846600586628,642},{4548196035054985,643},{4961668401878166,643},{5536916155842298,643},
{6921145194802872,643},{8467149620904399,643},{8718846600586628,643},{5051537819773601,644},{6435766858734175,644},{6921145194802873,644},
{7334617561626053,644},{7748089928449233,644},{8718846600586628,644},{6507672827979692,645},{6813260153611677,645},{6921145194802872,645},
{7748089928449234,645},{8269447336463610,645},{8575034662095594,645},{5294226987807949,646},{7388560082221651,646},{7694147407853636,646},
{7748089928449234,646},{8575034662095594,646},{8961535768620976,646},{5294226987807949,647},{6067229200858713,647},{7388560082221651,647},
{8148076665123515,647},{8575034662095594,647},{8961535768620976,647},{4880754620984769,648},{5015610922473764,648},{5321198248105748,648},
{5694213724482230,648},{8440178360606600,648},{8575034662095595,648},{4880754620984769,649},{5015610922473764,649},{5321198248105748,649},
{5694213724482230,649},{8440178360606600,649},{8761542400283836,649},{4694246882796528,650},{4787500751890649,650},{5600959855388110,650},
{6414418958885571,650},{7507639669665395,650},{8761542400283835,650},{4694246882796528,651},{5600959855388110,651},{6414418958885571,651},
{6414418958885572,651},{7587980679584704,651},{8761542400283835,651},{5321198248105748,652},{6414418958885571,652},{6414418958885572,652},
{7587980679584704,652},{8134591034974615,652},{8455955074651851,652},{5321198248105748,653},{5867808603495660,653},{6414418958885572,653},
{7001199819235137,653},{7587980679584704,653},{8721371895324181,653},{5321198248105748,654},{5867808603495660,654},{6414418958885572,654},
{7294590249409920,654},{7587980679584704,654},{8721371895324181,654},{4975440417514109,655},{6414418958885571,655},{7708492194463667,655},
{7881371109759487,655},{8427981465149398,655},{8946618211036857,655},{4601708977420017,656},{6414418958885571,656},{7147895034322529,656},
{7334760754369575,656},{7881371109759487,656},{8946618211036857,656},{4601708977420017,657},{6414418958885571,657},{7147895034322529,657},
{7334760754369575,657},{7881371109759487,657},{8946618211036857,657},{4508276117396495,658},{5162306137561155,658},{7147895034322529,658},
{7521626474416621,658},{8946618211036856,658},{8946618211036857,658},{4695141837443540,659},{7101178604310767,659},{7147895034322529,659},
{7194611464334291,659},{7521626474416621,659},{8946618211036857,659},{5384279490747778,660},{6820880024240199,660},{7147895034322529,660},
{7288044324357813,660},{7521626474416621,660},{8911510577897280,660},{5290846630724255,661},{5524428780783062,661},{6242729047529272,661},
{7147895034322529,661},{7288044324357813,661},{8053061021115786,661},{5290846630724254,662},{5290846630724255,662},{6458757381018292,662},
{7054462174299006,662},{8053061021115786,662},{8222372924593043,662},{4908338282345268,663},{5290846630724255,663},{6671953825920020,663},
{6756609777658649,663},{8053061021115786,663},{8520225321233400,663},{4908338282345268,664},{5290846630724255,664},{6480699651730527,664},
{6905535975978827,664},{8053061021115786,664},{8669151519553579,664},{5290846630724254,665},{7054462174299006,665},{7861806846926293,665},
{8520225321233400,665},{8669151519553579,665},{8818077717873758,665},{6576326738825273,666},{7861806846926293,666},{8339942282400025,666},
{8520225321233400,666},{8669151519553579,666},{8818077717873758,666},{5455451249301032,667},{6576326738825274,667},{8339942282400025,667},
{8520225321233400,667},{8669151519553579,667},{8982682336450534,667},{5455451249301032,668},{5604377447621210,668},{5831695747224381,668},
{6576326738825273,668},{6576326738825274,668},{8520225321233400,668},{5043939702859089,669},{6015888994063153,669},{6576326738825273,669},
{6576326738825274,669},{7548276030029337,669},{8520225321233400,669},{6015888994063153,670},{6296107866444213,670},{6576326738825273,670},
{6576326738825274,670},{7548276030029337,670},{8520225321233400,670},{5175232376919971,671},{6015888994063153,671},{6296107866444213,671},
{6576326738825273,671},{6576326738825274,671},{8949370391934639,671},{5175232376919971,672},{6576326738825273,672},{7005471809526513,672},
{7762848565379957,672},{7977421100730576,672},{8520225321233400,672},{4581971463642630,673},{5175232376919971,673},{5983065825547932,673},
{6576326738825273,673},{7005471809526513,673},{7762848565379956,673},{4581971463642630,674},{4985888187956610,674},{5175232376919971,674},
{5579149101233951,674},{7384160187453235,674},{7762848565379956,674},{4985888187956610,675},{6248095053673069,675},{6689985888626859,675},
{7573504376416595,675},{7762848565379957,675},{8141536943306678,675},{4985888187956610,676},{5080560282438290,676},{5743264943810054,676},
{7194815998489874,676},{7762848565379957,676},{8141536943306678,676},{5080560282438290,677},{5269904471401651,677},{6327032329427443,677},
{7194815998489874,677},{7668176470898276,677},{8914648517887429,677},{5238434833947039,678},{5269904471401652,678},{5743264943810054,678},
{6232360234945762,678},{6248095053673069,678},{8630632234442387,678},{5269904471401652,679},{5743264943810054,679},{6248095053673069,679},
{7179081179762567,679},{8149404352670331,679},{8630632234442387,679},{4792610294311423,680},{5743264943810054,680},{7179081179762567,680},
{7190882293808047,680},{8149404352670331,680},{8149404352670332,680},{4792610294311422,681},{4792610294311423,681},{6228426530263936,681},
{7429529382353161,681},{8149404352670332,681},{8388051441215446,681},{4792610294311423,682},{5743264943810054,682},{6471007323490877,682},
{6733256640126951,682},{7179081179762567,682},{8149404352670331,682},{4792610294311423,683},{5743264943810054,683},{6471007323490877,683},
{7179081179762567,683},{8149404352670331,683},{8391985145897273,683},{4792610294311423,684},{6349716926877406,684},{7249560639773869,684},
{7785533162829920,684},{8391985145897273,684},{8927957668953323,684},{4530360977675349,685},{4913900690924893,685},{6349716926877407,685},
{7179081179762567,685},{7370851036387339,685},{7562620893012112,685},{4722130834300121,686},{6349716926877407,686},{6860283981632373,686},
{7179081179762567,686},{7370851036387339,686},{7370851036387340,686},{4818015762612507,687},{5376525281523667,687},{7274966108074953,687},
{7370851036387340,687},{7833475626986113,687},{8344042681741079,687},{4913900690924893,688},{6891426394825409,688},{7322908572231147,688},
{7370851036387339,688},{7370851036387340,688},{8868952098725926,688},{4674188370143928,689},{4889929458846797,689},{7131138715606374,689},
{7346879804309243,689},{7370851036387339,689},{7370851036387340,689},{4794044530534410,690},{4889929458846797,690},{7250994875996857,690},
{7346879804309243,690},{7370851036387340,690},{8587340593079514,690},{4889929458846797,691},{6082447783460875,691},{7346879804309243,691},
{7370851036387340,691},{7955124582655330,691},{8539398128923321,691},{4913900690924893,692},{5842735462679910,692},{6442016264632323,692},
{7955124582655330,692},{8539398128923321,692},{8539398128923322,692},{5618030397583367,693},{5790311010326880,693},{6666721329728866,693},
{7662987809521335,693},{7955124582655330,693},{8539398128923321,693},{5206037464058889,694},{5790311010326880,694},{6666721329728866,694},
{7662987809521335,694},{7955124582655330,694},{8539398128923321,694},{5206037464058888,695},{6030023331107845,695},{6666721329728866,695},
{7078714263253344,695},{7303419328349887,695},{8539398128923322,695},{5000040997296649,696},{5206037464058888,696},{5309035697440008,696},
{6030023331107845,696},{6666721329728866,696},{8539398128923322,696},{5000040997296649,697},{5206037464058888,697},{5309035697440008,697},
{6666721329728866,697},{7181712496634464,697},{8539398128923322,697},{5000040997296649,698},{5000040997296650,698},{5908316499392421,698},
{6090876746965556,698},{6666721329728866,698},{8848392829066680,698},{5000040997296649,699},{6090876746965556,699},{6636294621800010,699},
{6666721329728866,699},{7120859080776752,699},{7212139204563320,699},{4984827643332221,700},{5000040997296649,700},{6060450039036701,700},
{6666721329728866,700},{8318188308196655,700},{8863606183031108,700},{4984827643332221,701},{5000040997296649,701},{6666721329728866,701},
{7196925850598892,701},{8310581631214441,701},{8863606183031108,701},{4771840687830230,702},{6098483423947771,702},{7196925850598891,702},
{7803197141291057,702},{8333401662161082,702},{8863606183031108,702},{4962007612385580,703},{4981024304841114,703},{6098483423947771,703},
{6647704637273331,703},{7803197141291057,703},{8333401662161082,703},{4962007612385580,704},{5539753864394442,704},{5587295595533280,704},
{6098483423947771,704},{6117500116403305,704},{6647704637273331,704},{5057091074663254,705},{5539753864394442,705},{6022416654125631,705},
{6117500116403306,705},{6647704637273331,705},{6742788099551006,705},{4720676217519986,706},{5539753864394442,706},{5539753864394443,706},
{6647704637273331,706},{7225450889282194,706},{8911147914169945,706},{5298422469528848,707},{5539753864394442,707},{5539753864394443,707},
{6647704637273331,707},{7225450889282194,707},{8454067359593880,707},{4815759679797660,708},{5419088166961646,708},{5539753864394442,708},
{6022416654125631,708},{7225450889282194,708},{7466782284147788,708},{5419088166961645,709},{5539753864394442,709},{5600086713110841,709},
{6022416654125631,709},{7225450889282194,709},{7285783737998593,709},{5419088166961645,710},{5539753864394442,710},{6473101649912916,710},
{7225450889282194,710},{7527115132864187,710},{8279464372233465,710},{4666738927592368,711},{5539753864394442,711},{6473101649912916,711},
{6909609118313954,711},{7225450889282194,711},{8279464372233464,711},{4666738927592367,712},{5419088166961645,712},{6473101649912916,712},
{7225450889282194,712},{8279464372233465,712},{8882792859397450,712},{4666738927592367,713},{4854826237434687,713},{5419088166961645,713},
{7150940513179548,713},{7225450889282194,713},{8279464372233465,713},{4854826237434687,714},{5419088166961645,714},{5663963943673801,714},
{6285014340070597,714},{7225450889282194,714},{8279464372233465,714},{5419088166961645,715},{6135993587865304,715},{6285014340070596,715},
{7225450889282194,715},{7658413975836670,715},{8091377062391145,715},{5165351435633084,716},{5419088166961645,716},{5777540877413475,716},
{7225450889282194,716},{8091377062391145,716},{8778076880274182,716},{4605519983414328,717},{5419088166961645,717},{7225450889282194,717},
{7404677244508109,717},{7531545610172389,717},{8778076880274182,717},{4605519983414328,718},{5419088166961645,718},{5598314522187560,718},
{7225450889282194,718},{8121582665411767,718},{8218245428055426,718},{4605519983414328,719},{5419088166961645,719},{7225450889282194,719},
{7811461336281767,719},{8218245428055426,719},{8576698138507255,719},{4605519983414328,720},{5419088166961645,720},{7225450889282194,720},
{7811461336281767,720},{8804255875054999,720},{8918034743328871,720},{5305309298687774,721},{6761777363371600,721},{7111672021008322,721},
{7461566678645044,721},{7811461336281767,721},{8918034743328870,721},{5362198732824710,722},{5419088166961645,722},{7054782586871386,722},
{7225450889282194,722},{8462919270233383,722},{8861145309191934,722},{5333754015756242,723},{5419088166961645,723},{7083227303939854,723},
{7225450889282194,723},{8747366440918063,723},{8861145309191934,723},{5276864581619306,724},{5333754015756242,724},{7097449662474088,724},
{7225450889282194,724},{8875367667726168,724},{8889590026260402,724},{4850193825592286,725},{5276864581619305,725},{5561311752303985,725},
{7083227303939854,725},{7652121645309214,725},{8889590026260403,725},{5205752788948136,726},{5312420477954890,726},{5561311752303985,726},
{7083227303939854,726},{7296562681953364,726},{8889590026260403,726},{5383532270626060,727},{7101005252107646,727},{7118783200275439,727},
{8854034129924818,727},{8871812078092610,727},{8889590026260403,727},{5294642529787098,728},{5383532270626060,728},{5383532270626061,728},
{7474342163631289,728},{8676254648246893,728},{8854034129924817,728},{5294642529787098,729},{5383532270626060,729},{6206712865031268,729},
{7029893459436477,729},{7474342163631289,729},{8030853535519610,729},{4883052232584494,730},{5383532270626060,730},{6206712865031268,730},
{6206712865031269,730},{8297522758036497,730},{8442443832722214,730},{4527493269228644,731},{5795122567828665,731},{6206712865031268,731},
{6206712865031269,731},{6272429679015685,731},{8297522758036497,731},{4527493269228644,732},{6000917716429967,732},{6206712865031268,732},
{6206712865031269,732},{8297522758036497,732},{8330381165028705,732},{4527493269228644,733},{5177737122024758,733},{6000917716429967,733},
{6103815290730617,733},{6206712865031269,733},{8297522758036497,733},{5692224993528013,734},{6000917716429967,734},{6103815290730617,734},
{6155264077880943,734},{6206712865031269,734},{8812010629539752,734},{4663249250521503,735},{5692224993528014,735},{6206712865031268,735},
{6463956800782896,735},{6754059143526732,735},{7235688608037779,735},{4663249250521503,736},{5949468929279641,736},{6206712865031268,736},
{6463956800782896,736},{7235688608037779,736},{8924203393919462,736},{4590723664835544,737},{4847967600587172,737},{5949468929279641,737},
{7235688608037779,737},{8924203393919461,737},{8924203393919462,737},{4663249250521503,738},{5105211536338799,738},{5547173822156096,738},
{8079946000978620,738},{8442573929408415,738},{8924203393919462,738},{4663249250521503,739},{5105211536338800,739},{7014707465129130,739},
{8079946000978620,739},{8884536215225711,739},{8924203393919462,739},{4884230393430151,740},{4994720964884475,740},{5105211536338800,740},
{7969455429524296,740},{8884536215225711,740},{8924203393919462,740},{4530113429627284,741},{4884230393430151,741},{4884230393430152,741},
{4994720964884475,741},{5989136107973392,741},{8663555072317063,741},{4530113429627284,742},{4884230393430151,742},{4939475679157314,742},
{4994720964884475,742},{5436683250701772,742},{8663555072317063,742},{4530113429627284,743},{4884230393430151,743},{4967098322020895,743},
{4994720964884475,743},{5160456822065962,743},{8939781500952873,743},{4884230393430151,744},{4967098322020895,744},{4980909643452685,744},
{4994720964884475,744},{5022343607748057,744},{8939781500952873,744},{4608003964794341,745},{4884230393430152,745},{5022343607748056,745},
{5091400214907009,745},{5298570036383867,745},{8525441857999158,745},{4608003964794341,746},{4884230393430152,746},{4953287000589104,746},
{5298570036383867,746},{7498987108042608,746},{7568043715201561,746},{4608003964794341,747},{4884230393430152,747},{4953287000589104,747},
{7775213536678419,747},{8737308858189884,747},{8806365465348837,747},{4608003964794342,748},{5989136107973392,748},{6394081393499368,748},
{7775213536678418,748},{8120496572473181,748},{8525441857999158,748},{4608003964794342,749},{5989136107973392,749},{6191608750736380,749},
{7501335697399543,749},{8322969215236169,749},{8394374411752056,749},{4608003964794342,750},{5227164839867979,750},{6191608750736380,750},
{7156052661604781,750},{7501335697399543,750},{8394374411752056,750},{4822219554342003,751},{5227164839867980,751},{7763470589893746,751},
{8120496572473181,751},{8703954849288875,751},{8727914500762146,751},{5417657656894333,752},{6775067027552074,752},{7739510938420475,752},
{7930003755446828,752},{8703954849288875,752},{8703954849288876,752},{5417657656894333,753},{6775067027552074,753},{7739510938420475,753},
{7834757346933651,753},{8608708440775699,753},{8703954849288876,753},{5417657656894333,754},{6286855159249557,754},{6775067027552074,754},
{7739510938420475,754},{8174109689598087,754},{8948060783440134,754},{5078305314229897,755},{5810623116683674,755},{6530961093400816,755},
{7263278895854592,755},{7727531112683840,755},{8948060783440134,755},{5200358281305527,756},{5810623116683674,756},{6408908126325186,756},
{7263278895854592,756},{8948060783440134,756},{8948060783440135,756},{5200358281305526,757},{5743606720277541,757},{6408908126325186,757},
{6653014060476445,757},{7074209532372831,757},{8948060783440135,757},{5621553753201912,758},{7074209532372831,758},{8105669839647363,758},
{8629821185159788,758},{8948060783440134,758},{8948060783440135,758},{4684628127668260,759},{7074209532372831,759},{8011135157906482,759},
{8105669839647363,759},{8526865311543749,759},{8948060783440135,759},{4684628127668260,760},{7542672345139657,760},{8011135157906482,760},
{8105669839647363,760},{8526865311543749,760},{8948060783440135,760},{4684628127668260,761},{5578497008269050,761},{5948214543357417,761},
{6605746719606005,761},{7684474367750978,761},{8948060783440134,761},{4684628127668260,762},{5763355775813233,762},{5948214543357417,762},
{6605746719606005,762},{7684474367750978,762},{7776903751523069,762},{5763355775813233,763},{6605746719606005,763},{7684474367750978,763},
{7776903751523069,763},{7776903751523070,763},{8362482267481602,763},{4849011171730407,764},{6605746719606005,764},{6770129763668151,764},
{7776903751523069,764},{7776903751523070,764},{8362482267481602,764},{5352398165657866,765},{5670926392041142,765},{6770129763668151,765},
{7273516757595611,765},{7776903751523069,765},{8968536506922171,765},{5100704668694137,766},{5352398165657866,766},{6451601537284876,766},
{6770129763668151,766},{7776903751523069,766},{8187861361678437,766},{5100704668694137,767},{5352398165657866,767},{6610865650476514,767},
{6770129763668151,767},{7776903751523069,767},{8187861361678437,767},{5352398165657866,768},{5511662278849504,768},{6292337424093238,768},
{6690497707072332,768},{6770129763668152,768},{7088657990051427,768},{5352398165657866,769},{5511662278849504,769},{6690497707072332,769},
{6690497707072333,769},{7088657990051427,769},{8068413276784709,769},{5352398165657866,770},{5511662278849504,770},{6690497707072332,770},
{6690497707072333,770},{7379455491928521,770},{8068413276784708,770},{4914421854380862,771},{6690497707072332,771},{6889577848561880,771},
{7379455491928521,771},{8558290920151349,771},{8864733842742898,771},{6889577848561880,772},{7034976599500426,772},{7379455491928520,772},
{7379455491928521,772},{8359210778661802,772},{8902769812579443,772},{5167183386421410,773},{5657061029788051,773},{7207216045714473,773},
{7379455491928520,773},{7379455491928521,773},{8902769812579443,773},{5167183386421410,774},{6518258260858286,774},{7121096322607450,774},
{7207216045714473,774},{7379455491928520,774},{7379455491928521,774},{4795863798717816,775},{6518258260858285,775},{6948856876393403,775},
{7379455491928521,775},{8122094667335709,775},{8611972310702350,775},{4795863798717816,776},{6458979233026762,776},{6518258260858285,776},
{6948856876393403,776},{7379455491928521,776},{8611972310702350,776},{4795863798717816,777},{5426941965062611,777},{5627421515872289,777},
{7379455491928521,777},{7780414593547876,777},{8901370403259312,777},{4795863798717815,778},{4795863798717816,778},{5969101589660122,778},
{6948856876393403,778},{7780414593547876,778},{8441132273808434,778},{4795863798717816,779},{6288139196132846,779},{6618498036263125,779},
{6948856876393403,779},{7279215716523681,779},{7780414593547876,779},{4636344995481453,780},{6288139196132846,780},{6618498036263125,780},
{6948856876393403,780},{7939933396784239,780},{8520891675426614,780},{4716104397099635,781},{6367898597751027,781},{7780414593547876,781},
{7939933396784238,781},{7939933396784239,781},{8861039451168549,781},{4716104397099635,782},{6328018896941936,782},{7860173995166057,782},
{7900053695975148,782},{7939933396784239,782},{8940798852786730,782},{5522061647020785,783},{7820294294356967,783},{7860173995166057,783},
{7900053695975148,783},{7939933396784239,783},{8666131245087209,783},{5522061647020785,784},{5925040271981361,784},{7820294294356967,784},
{7860173995166057,784},{7939933396784239,784},{8666131245087209,784},{4506406191427227,785},{5925040271981361,785},{5964919972790451,785},
{7860173995166058,785},{8902855619865254,785},{8942735320674344,785},{4506406191427227,786},{4937533559984467,786},{5925040271981361,786},
{7860173995166058,786},{8957834001359853,786},{8997713702168944,786},{4857774158366286,787},{4897653859175377,787},{4937533559984467,787},
{4937533559984468,787},{5925040271981361,787},{8373867201569050,787},{4658375654320834,788},{4857774158366286,788},{4937533559984467,788},
{4977413260793558,788},{5256571166457192,788},{7346480788763066,788},{4857774158366286,789},{6142007174373767,789},{6181886875182857,789},
{7386360489572156,789},{7585758993617609,789},{8630713804770545,789},{4857774158366286,790},{6142007174373767,790},{6221766575991948,790},
{7386360489572156,790},{8028476997575896,790},{8630713804770545,790},{4658375654320834,791},{4857774158366287,791},{5822969567901042,791},
{6903762784804778,791},{7984556001708514,791},{8068356698384986,791},{4616475305982598,792},{4658375654320834,792},{5822969567901042,792},
{8068356698384986,792},{8068356698384987,792},{8991651759581506,792},{4616475305982597,793},{4616475305982598,793},{5781069219562806,793},
{7265711063380311,793},{8068356698384987,793},{8189006124576831,793},{4616475305982597,794},{4616475305982598,794},{5781069219562806,794},
{7787683307074493,794},{8068356698384987,794},{8710978368271013,794},{4616475305982598,795},{4658375654320834,795},{5822969567901042,795},
{6342416002183792,795},{7787683307074493,795},{8629703481005973,795},{4616475305982598,796},{4756812001637844,796},{4897148697293091,796},
{6061742610873299,796},{6202079306528545,796},{7226336524453507,796},{4756812001637844,797},{4897148697293091,797},{5409277306255572,797},
{6061742610873299,797},{6202079306528545,797},{7226336524453507,797},{5128603914945079,798},{5374694783237604,798},{6994881306801519,798},
{7689246959757483,798},{7913384352089203,798},{7928020002729740,798},{4665693479641103,799},{5012876306119085,799},{5946015002047305,799},
{6994881306801519,799},{7689246959757483,799},{8622385655685704,799},{5012876306119085,800},{6003878806460302,800},{6994881306801519,800},
{7110608915627513,800},{8043747611555734,800},{8976886307483955,800},{5888151197634308,801},{7110608915627514,801},{8267885003887453,801},
{8622385655685704,801},{8976886307483954,801},{8976886307483955,801},{6032810708666801,802},{6112288589966027,802},{6466789241764278,802},
{6965949404595021,802},{8976886307483954,802},{8976886307483955,802},{5034490383005314,803},{5388991034803565,803},{5493911605186444,803},
{6032810708666801,803},{7504848508075377,803},{8976886307483955,803},{4757892705482156,804},{4850091931323208,804},{5388991034803565,804},
{5493911605186444,804},{7504848508075377,804},{8976886307483955,804},{4757892705482156,805},{4850091931323208,805},{5388991034803565,805},
{8239292500755531,805},{8437987204003598,805},{8976886307483954,805},{4757892705482156,806},{4850091931323208,806},{5388991034803565,806},
{6867389506483055,806},{8700288629960796,806},{8976886307483954,806},{4757892705482156,807},{4850091931323208,807},{5388991034803565,807},
{8191587458723683,807},{8391887591083072,807},{8976886307483954,807},{5004292450762070,808},{5388991034803565,808},{5543191554242427,808},
{6082090657722784,808},{7314089384122359,808},{8083486552205347,808},{5004292450762071,809},{5543191554242427,809},{6082090657722784,809},
{7698787968163853,809},{8083486552205347,809},{8314787331363640,809},{5004292450762071,810},{6082090657722784,810},{7198438994543212,810},
{8083486552205347,810},{8314787331363640,810},{8853686434843997,810},{4619593866720576,811},{5004292450762070,811},{5773689618845059,811},
{7698787968163853,811},{7699590682719514,811},{8660935785545420,811},{4619593866720576,812},{4715567834092034,812},{6736640150782287,812},
{7698787968163853,812},{8660935785545419,812},{8949660402215456,812},{4571205525757016,813},{5293017067432107,813},{7698787968163853,813},
{8660935785545419,813},{8949660402215456,813},{8998048743179015,813},{4571205525757016,814},{4571205525757017,814},{8420599509838943,814},
{8660935785545419,814},{8925867589011506,814},{8949660402215456,814},{4571205525757016,815},{4571205525757017,815},{4691775020888085,815},
{5533353343138583,815},{6495501160520149,815},{8660935785545420,815},{4571205525757017,816},{4751658411175789,816},{7337882197326308,816},
{8300030014707874,816},{8601052395257716,816},{8961958166095260,816},{4571205525757017,817},{6405676075088594,817},{6947034731344911,817},
{7337882197326308,817},{8240146624420170,817},{8961958166095260,817},{4551137661865504,818},{4571205525757016,818},{4571205525757017,818},
{4631088916044720,818},{6405676075088594,818},{7307940502182456,818},{4521195966721652,819},{4571205525757016,819},{4571205525757017,819},
{4601147220900868,819},{6405676075088594,819},{7307940502182456,819},{4506225119149726,820},{4571205525757016,820},{4571205525757017,820},
{4586176373328942,820},{7315425925968419,820},{8232661200634208,820},{4526292983041239,821},{4566108509437430,821},{4571205525757016,821},
{4578690949542980,821},{4601147220900868,821},{9000187999580736,821},{4528681390507615,822},{4563720101971054,822},{4567462813864035,822},
{4571205525757016,822},{4578690949542980,822},{4601147220900868,822},{4563720101971054,823},{4578690949542980,823},{4582433661435961,823},
{4601147220900868,823},{6854936932689034,823},{6858679644582015,823},{4563720101971053,824},{4638574339830683,824},{4732142137155221,824},
{6854936932689034,824},{6873650492153942,824},{8996445287687755,824},{4563720101971053,825},{5718685297062498,825},{6723942016434682,825},
{6854936932689034,825},{6911077611083756,825},{7004645408408294,825},{5141202699516775,826},{5681258178132683,826},{5718685297062498,826},
{6854936932689034,826},{6911077611083756,826},{8047329246710293,826},{5429943998289636,827},{5718685297062498,827},{6296167894608219,827},
{7143678231461895,827},{7432419530234756,827},{8568671165861293,827},{5681258178132683,828},{5988713036370451,828},{6296167894608220,828},
{7619555124883831,828},{8568671165861292,828},{8755806760510367,828},{5681258178132683,829},{6296167894608220,829},{7218532469321525,829},
{7846817918929140,829},{8354784104948061,829},{8568671165861292,829},{4645262206396723,830},{5681258178132683,830},{7018021141540372,830},
{7639618724581948,830},{8154272777166908,830},{8568671165861292,830},{4645262206396723,831},{5681258178132683,831},{5781513842023259,831},
{6917765477649795,831},{7820066452664984,831},{8956318088291520,831},{4645262206396723,832},{5681258178132683,832},{7318788133212101,832},
{7536019127408352,832},{8455039768838638,832},{8672270763034888,832},{4645262206396723,833},{5681258178132683,833},{7536019127408352,833},
{7636274791298928,833},{8413271770100898,833},{8772526426925465,833},{5681258178132683,834},{6658766484715805,834},{7001301475125274,834},
{7636274791298929,834},{7795018120342342,834},{8455039768838638,834},{5681258178132683,835},{6341279826628978,835},{6658766484715805,835},
{7795018120342342,835},{8283772273633904,835},{8455039768838638,835},{4710011954630220,836},{5681258178132683,836},{6011269002380830,836},
{7471269379174854,836},{8125028944590490,836},{8283772273633904,836},{4710011954630220,837},{5116263401859745,837},{5846263590256757,837},
{6011269002380830,837},{7471269379174854,837},{7960023532466416,837},{5846263590256756,838},{5846263590256757,838},{5928766296318794,838},
{6671290650877126,838},{7795018120342342,838},{8620045180962712,838},{5846263590256757,839},{5887514943287775,839},{5928766296318794,839},
{6258777120566941,839},{7836269473373360,839},{8207531650652527,839},{4933763354760492,840},{5846263590256757,840},{5887514943287775,840},
{6052520355411849,840},{8001274885497434,840},{8831272414931662,840},{5846263590256756,841},{5938707233946510,841},{6923769237877096,841},
{7290060946342404,841},{7795018120342342,841},{8001274885497434,841},{6098742177256726,842},{6385016414066926,842},{6923769237877096,842},
{8001274885497434,842},{8333770944152511,842},{8872523767962681,842},{5141262737119048,843},{6178759648911834,843},{6385016414066926,843},
{7628770091014804,843},{8001274885497434,843},{8872523767962681,843},{6218768384739388,844},{6338794592222049,844},{7090017267204634,844},
{7130026003032188,844},{7921257413842327,844},{7961266149669880,844},{4556288091464002,845},{5347519502274141,845},{6218768384739388,845},
{7090017267204634,845},{7921257413842327,845},{7981270517583657,845},{5347519502274141,846},{6238772752653164,846},{7090017267204634,846},
{7100019451161523,846},{7921257413842327,846},{7981270517583657,846},{4876887417192408,847},{5347519502274141,847},{5768140667571432,847},
{6238772752653164,847},{7981270517583657,847},{8862521584005793,847},{4876887417192408,848},{5768140667571432,848},{7080015083247746,848},
{8121301092980096,848},{8862521584005792,848},{8912532503790235,848},{4876887417192408,849},{5768140667571431,849},{6424077875409588,849},
{7080015083247746,849},{8206584376167636,849},{8912532503790235,849},{4876887417192408,850},{5204856021111486,850},{5768140667571431,850},
{6424077875409589,850},{8206584376167636,850},{8912532503790235,850},{5768140667571431,851},{5768140667571432,851},{6096109271490510,851},
{6424077875409588,851},{7350603489191709,851},{8256595295952078,851},{4919529058786178,852},{5768140667571431,852},{6096109271490510,852},
{6424077875409588,852},{8256595295952078,852},{8816195303316687,852},{4572081953617882,853},{5343834863178805,853},{5768140667571431,853},
{6096109271490510,853},{7832289491559451,853},{8816195303316687,853},{5555987765375118,854},{5768140667571432,854},{5825520865546547,854},
{6616752276356685,854},{7620136589363137,854},{8199215097976963,854},{4629989804479265,855},{6347219176185257,855},{6694138628467285,855},
{7620136589363137,855},{7677516787338253,855},{8468748198148391,855},{5421221215289404,856},{6694138628467285,856},{7157137608915211,856},
{7620136589363137,856},{7677516787338253,856},{8468748198148391,856},{5092988784927192,857},{6694138628467285,857},{7157137608915211,857},
{7620136589363137,857},{8468748198148391,857},{8931747178596318,857},{4629989804479265,858},{5092988784927191,858},{5092988784927192,858},
{5303822554907837,858},{8544815418043323,858},{8632864413329498,858},{4629989804479265,859},{5092988784927192,859},{6587402611261294,859},
{7788924560024198,859},{8714922520920050,859},{8902397513500926,859},{5051959731131915,860},{5092988784927192,860},{7788924560024198,860},
{8386690090557838,860},{8714922520920050,860},{8849689071005765,860},{4629989804479265,861},{5092988784927191,861},{5092988784927192,861},
{5356530997402999,861},{5819529977850925,861},{8128836379086295,861},{4629989804479265,862},{5092988784927191,862},{5092988784927192,862},
{8234253264076617,862},{8697252244524544,862},{8925907484246376,862},{5092988784927192,863},{5157452212795078,863},{5620451193243004,863},
{6083450173690930,863},{8515616946293610,863},{8978615926741537,863},{4629989804479265,864},{5092988784927191,864},{5737623063606051,864},
{6944984706718898,864},{8052617965845684,864},{8193299806954181,864},{4629989804479265,865},{5092988784927191,865},{6341303885162474,865},
{6944984706718898,865},{8656298787402107,865},{8958139198180319,865},{6562565011105829,866},{6643144295940686,866},{6944984706718898,866},
{7025563991553755,866},{7488562972001681,866},{8958139198180318,866},{5636567050209975,867},{6562565011105829,867},{6643144295940686,867},
{6944984706718898,867},{7025563991553755,867},{7488562972001681,867},{5032886228653552,868},{5636567050209976,868},{6290775878464436,868},
{6643144295940686,868},{7951561952449608,868},{8253402363227820,868},{4982358221955514,869},{5963671464337206,869},{6290775878464436,869},
{6643144295940686,869},{7624457538322378,869},{8253402363227820,869},{4969726220281005,870},{4982358221955514,870},{5296830634408235,870},
{6643144295940686,870},{8278666366576839,870},{8618402782378579,870},{4969726220281005,871},{4982358221955514,871},{6630512294266177,871},
{6643144295940686,871},{8177610353180763,871},{8278666366576838,871},{4969726220281005,872},{4982358221955514,872},{6579984287568139,872},
{6630512294266177,872},{6643144295940686,872},{7454589330421507,872},{4557687702203340,873},{4982358221955514,873},{5781171254761827,873},
{6643144295940686,873},{7042550812343842,873},{7454589330421507,873},{5171838247073157,874},{5381764738358670,874},{6579984287568139,874},
{7042550812343842,874},{8303930369925857,874},{8703336886329014,874},{5381764738358670,875},{5444924746731218,875},{6579984287568139,875},
{7042550812343842,875},{8303930369925857,875},{8703336886329014,875},{5281913109257881,876},{5581467996560249,876},{6443441037739108,876},
{7042550812343842,876},{8303930369925857,876},{8703336886329014,876},{5082209851056303,877},{5281913109257881,877},{6942699183243053,877},
{6992624997793448,877},{7042550812343842,877},{8803188515429803,877},{5082209851056304,878},{5331838923808276,878},{6080726142064194,878},
{6443441037739108,878},{6806155933414022,878},{8803188515429802,878},{4832580778304331,879},{5195295673979245,879},{5331838923808276,879},
{6137269053525665,879},{7691586401498971,879},{8803188515429802,879},{4832580778304331,880},{5331838923808276,880},{5638010908021719,880},
{7470228784477734,880},{7691586401498971,880},{8803188515429802,880},{4912581116671891,881},{5859368525042956,881},{6664798654760345,881},
{7470228784477734,881},{8054301297173885,881},{8982445307463509,881},{4691223499650654,882},{5859368525042956,882},{6664798654760345,882},
{7470228784477734,882},{8275658914195122,882},{8982445307463509,882},{5401314055928953,883},{7470228784477734,883},{8164980105684503,883},
{8275658914195122,883},{8386337722705741,883},{8733713383309125,883},{4912581116671891,884},{6206744185646342,884},{6317422994156960,884},
{7611586063131411,884},{8164980105684503,884},{8386337722705740,884},{4912581116671891,885},{5227626225627260,885},{6206744185646342,885},
{7296540954176041,885},{7611586063131411,885},{8164980105684503,885},{5448983842648498,886},{5717185205636801,886},{6206744185646342,886},
{7075183337154804,886},{7786099934185581,886},{8164980105684503,886},{4627388437107101,887},{5717185205636801,887},{6806981974166501,887},
{6996422059915962,887},{7075183337154804,887},{7786099934185581,887},{4627388437107102,888},{5448983842648498,888},{5717185205636801,888},
{5985386568625104,888},{6253587931613408,888},{8575777808455201,888},{5717185205636801,889},{5985386568625104,889},{6601583122781152,889},
{8575777808455201,889},{8575777808455202,889},{8843979171443505,889},{5717185205636801,890},{5985386568625104,890},{7280582188540153,890},
{7588680465618177,890},{8575777808455201,890},{8575777808455202,890},{4690190948710056,891},{5203688077173429,891},{5717185205636801,891},
{6031197763651573,891},{8039375082478595,891},{8575777808455201,891},{4690190948710056,892},{5249499272199897,892},{5717185205636801,892},
{8575777808455201,892},{8821073573930271,892},{8966627054181040,892},{4690190948710056,893},{4858650026474059,893},{5717185205636801,893},
{8575777808455201,893},{8771202431318121,893},{8821073573930271,893},{4663225403611141,894},{4690190948710056,894},{4750787846078397,894},
{8147237262874257,894},{8457189873303348,894},{8821073573930270,894},{4555363223215478,895},{4592478637278597,895},{4690190948710056,895},
{8147237262874257,895},{8821073573930270,895},{8918785885361730,895},{4592478637278596,896},{4690190948710056,896},{7097625351330271,896},
{7195337662761731,896},{7293049974193191,896},{8147237262874257,896},{4592478637278596,897},{4690190948710056,897},{7097625351330271,897},
{7195337662761731,897},{7293049974193191,897},{8910378047294374,897},{4592478637278596,898},{4592478637278597,898},{4690190948710056,898},
{8398335006831853,898},{8901099193778594,898},{8998811505210053,898},{4592478637278596,899},{4592478637278597,899},{4690190948710056,899},
{8254228427821496,899},{8847603611304974,899},{8945315922736434,899},{4570370272799677,900},{4592478637278596,900},{4690190948710056,900},
{8084462826884858,900},{8847603611304974,900},{8945315922736434,900},{4592478637278597,901},{4885615571572975,901},{5374177128730272,901},
{8670736695473615,901},{8683566206436755,901},{8976703140731133,901},{4592478637278597,902},{4885615571572975,902},{5374177128730272,902},
{8836549429065514,902},{8934261740496974,902},{8976703140731134,902},{4885615571572975,903},{5374177128730272,903},{5541966295994541,903},
{5639678607426001,903},{5737390918857461,903},{8641124806202596,903},{4885615571572975,904},{5053404738837244,904},{5541966295994541,904},
{6519089410309137,904},{7328423357359462,904},{8641124806202596,904},{5053404738837244,905},{5541966295994541,905},{5541966295994542,905},
{6519089410309137,905},{7328423357359462,905},{7984774081781029,905},{5053404738837244,906},{5541966295994541,906},{5541966295994542,906},
{7782440595018448,906},{7984774081781029,906},{8878002612463489,906},{4767176668442528,907},{4910290703639886,907},{5541966295994541,907},
{5541966295994542,907},{7925554630215806,907},{8759563709333042,907},{4584581556542749,908},{5541966295994541,908},{7925554630215806,908},
{7984774081781029,908},{8700344257767819,908},{8897749641279922,908},{6733760463105173,909},{7807115727085359,909},{7925554630215805,909},
{7925554630215806,909},{7984774081781029,909},{8700344257767819,909},{5899751383987937,910},{5958970835553160,910},{6733760463105173,910},
{7329657546660490,910},{7925554630215805,910},{8700344257767819,910},{4559897770522209,911},{4619117222087433,911},{4946069212439225,911},
{6912653007101871,911},{7925554630215806,911},{9003846651400099,911},{4946069212439226,912},{5005288664004449,912},{5064508115569672,912},
{6435811921327515,912},{7925554630215806,912},{8402395715990161,912},{4946069212439226,913},{6435811921327515,913},{7180683275771661,913},
{7448713544441450,913},{7507932996006673,913},{8402395715990161,913},{4709191406178332,914},{4946069212439225,914},{5005288664004449,914},
{6167781652657726,914},{7507932996006673,914},{8670425984659951,914},{4946069212439225,915},{5005288664004449,915},{6108562201092503,915},
{6808247598549588,915},{7507932996006673,915},{8670425984659951,915},{4946069212439225,916},{5005288664004449,916},{6108562201092503,916},
{6808247598549588,916},{7507932996006673,916},{8670425984659951,916},{4946069212439225,917},{5005288664004449,917},{5106185698912191,917},
{5906768131277018,917},{6968364085022554,917},{7709727065822158,917},{4507397336362848,918},{5106185698912191,918},{6007665166184760,918},
{7608830030914416,918},{8409412463279243,918},{8880928403332410,918},{4507397336362848,919},{5106185698912191,919},{5957216648730889,919},
{7608830030914416,919},{8409412463279243,919},{8981825438240152,919},{4507397336362848,920},{5080961440185256,920},{5106185698912191,920},
{5957216648730889,920},{8459860980733114,920},{8981825438240152,920},{4608294371270590,921},{8459860980733114,921},{8485085239460050,921},
{8510309498186985,921},{8535533756913920,921},{8780031368424668,921},{6395344253003706,922},{8333739687098436,922},{8459860980733114,922},
{8485085239460050,922},{8510309498186985,922},{8585982274367792,922},{5325249501048599,923},{6344895735549835,923},{8459860980733114,923},
{8485085239460050,923},{8510309498186985,923},{8585982274367792,923},{5350473759775535,924},{6218774441915158,924},{6344895735549836,924},
{6849380910088546,924},{7465439004958813,924},{8081497099829081,924},{4790202125071046,925},{4972109878871502,925},{6218774441915158,925},
{6905167370254325,925},{7465439004958813,925},{7465439004958814,925},{4664080831436368,926},{4790202125071046,926},{5070337942423290,926},
{6218774441915158,926},{6905167370254325,926},{7465439004958814,926},{4510066307718802,927},{4664080831436368,927},{5910745394480024,927},
{6218774441915158,927},{6233322815218278,927},{7465439004958813,927},{4510066307718802,928},{4664080831436368,928},{5910745394480024,928},
{5987752656338807,928},{6218774441915158,928},{7003395433806113,928},{4664080831436368,929},{5171902220170021,929},{5248909482028805,929},
{5987752656338807,929},{6218774441915158,929},{8943125353578820,929},{5248909482028804,930},{5248909482028805,930},{5618331069183806,930},
{5987752656338807,930},{6803603092507594,930},{8943125353578820,930},{5248909482028805,931},{5833738132621241,931},{6803603092507594,931},
{7096017417803812,931},{7773468052393947,931},{8943125353578819,931},{5248909482028805,932},{5833738132621241,932},{6803603092507594,932},
{7096017417803812,932},{7773468052393947,932},{8796918190930710,932},{5102702319380695,933},{5248909482028805,933},{5322013063352859,933},
{5833738132621241,933},{6803603092507594,933},{7022913836479757,933},{5102702319380695,934},{5102702319380696,934},{6803603092507594,934},
{7169120999127866,934},{8757881385583421,934},{8870021772254765,934},{5102702319380695,935},{6803603092507594,935},{7169120999127866,935},
{7836812432381180,935},{8631192625608957,935},{8870021772254765,935},{5102702319380695,936},{5802065942627624,936},{6803603092507594,936},
{7502966715754523,936},{7836812432381180,936},{8567848245621725,936},{5102702319380696,937},{5229391079355160,937},{6550225572558666,937},
{6835275282501210,937},{8504503865634492,937},{8536176055628108,937},{5118538414377503,938},{5229391079355160,938},{6708586522526746,938},
{6819439187504402,938},{8504503865634492,938},{8520339960631301,938},{5118538414377503,939},{5150210604371120,939},{6787766997510786,939},
{6819439187504402,939},{8504503865634492,939},{8520339960631301,939},{5110620366879099,940},{5114579390628301,940},{6787766997510786,940},
{6819439187504402,940},{8520339960631301,940},{8544094103126513,940},{5110620366879099,941},{5110620366879100,941},{6748176760018766,941},
{6827357235002806,941},{8524298984380502,941},{8583684340618533,941},{5110620366879099,942},{5110620366879100,942},{6748176760018766,942},
{6827357235002806,942},{8524298984380502,942},{8583684340618533,942},{5110620366879099,943},{5110620366879100,943},{5115569146565602,943},
{6797664556883791,943},{8524298984380502,943},{8534196543753508,943},{5110620366879100,944},{5135364265311612,944},{5259083757474175,944},
{6599713369423691,944},{6822408455316303,944},{8435220950023457,944},{5110620366879100,945},{5135364265311612,945},{5259083757474175,945},
{5966514411097701,945},{8311501457860895,945},{8435220950023457,945},{4707417243202311,946},{5259083757474175,946},{5538567388988401,946},
{5966514411097701,946},{7455607413642293,946},{8435220950023457,946},{4707417243202311,947},{4831136735364873,947},{4887925280986487,947},
{6114977801692777,947},{6723432861586253,947},{8863167972132759,947},{4707417243202311,948},{4921390754256961,948},{6114977801692777,948},
{7027660391532992,948},{8863167972132758,948},{8863167972132759,948},{4707417243202311,949},{4921390754256961,949},{5349337776366263,949},
{7793300416859506,949},{8818040962686715,949},{8863167972132758,949},{5349337776366263,950},{7083689369526489,950},{7106252874249510,950},
{7297662880581139,950},{7511636391635789,950},{8176120429522763,950},{5270745293649744,951},{5349337776366263,951},{6227795325307887,951},
{7106252874249510,951},{7297662880581139,951},{8367530435854391,951},{5270745293649744,952},{5349337776366263,952},{6227795325307886,952},
{6227795325307887,952},{7297662880581139,952},{8367530435854391,952},{4831516519178932,953},{5788566550837075,953},{6008180938072480,953},
{6227795325307886,953},{7297662880581139,953},{8587144823089798,953},{6008180938072480,954},{6227795325307887,954},{6588431617062180,954},
{6667024099778698,954},{6824209065211736,954},{8941760454849277,954},{5490359680885150,955},{5568952163601669,955},{6008180938072480,955},
{6117988131690184,955},{6667024099778698,955},{8941760454849277,955},{4941323712796635,956},{5568952163601669,956},{6008180938072480,956},
{6063084534881332,956},{6117988131690183,956},{6117988131690184,956},{5490359680885150,957},{5568952163601668,957},{5568952163601669,957},
{5843470147645926,957},{6117988131690184,957},{8314132004044243,957},{5568952163601668,958},{5568952163601669,958},{5843470147645926,958},
{6117988131690184,958},{6941542083822956,958},{8314132004044243,958},{4843360962132765,959},{5568952163601669,959},{6117988131690184,959},
{6941542083822956,959},{7304337684557407,959},{7578855668601665,959},{4843360962132765,960},{5206156562867217,960},{6117988131690184,960},
{6711162908123795,960},{7304337684557408,960},{7578855668601665,960},{5127564080150698,961},{5206156562867217,961},{6073849323345087,961},
{7304337684557407,961},{8172030445035277,961},{8755520087495214,961},{5206156562867217,962},{5821400743473378,962},{6073849323345086,962},
{7304337684557407,962},{8172030445035277,962},{8755520087495214,962},{5206156562867217,963},{5821400743473378,963},{6073849323345086,963},
{6562869214015392,963},{8172030445035277,963},{8282377465898020,963},{6073849323345087,964},{6546991944942281,964},{8045806155099422,964},
{8598335122062176,964},{8676927604778695,964},{8913498915577292,964},{5324442218266515,965},{6546991944942281,965},{7059827739222255,965},
{7572663533502228,965},{8676927604778695,965},{8913498915577292,965},{5324442218266515,966},{6546991944942281,966},{7059827739222254,966},
{7059827739222255,966},{8420509707638708,966},{8676927604778695,966},{4851299596669321,967},{6468399462225762,967},{6803409842082267,967},
{7059827739222255,967},{8420509707638708,967},{8755520087495214,967},{4851299596669321,968},{5570936822235807,968},{6468399462225762,968},
{6803409842082268,968},{7059827739222255,968},{8420509707638708,968},{5570936822235807,969},{5827354719375794,969},{6315382280729031,969},
{6803409842082268,969},{7059827739222255,969},{7444454584932235,969},{4698282415172591,970},{5262818567274192,970},{6315382280729031,970},
{7059827739222255,970},{7444454584932235,970},{7932482146285471,970},{4851299596669321,971},{5262818567274192,971},{6315382280729031,971},
{6468399462225762,971},{7932482146285472,971},{8908537268991945,971},
};
static const struct { uint64_t w; int q; } floats[] = {
{443909,-149},{2800462,-149},{5822879,-149},{8623340,-149},{14224265,-149},{14668173,-149},
{8401386,-148},{8623340,-148},{14224265,-148},{14446219,-148},{14668173,-148},{16068405,-148},
{8623340,-147},{9323456,-147},{14224265,-147},{14446219,-147},{14668173,-147},{16546566,-147},
{10723687,-146},{10945642,-146},{14224264,-146},{14224265,-146},{15334037,-146},{16443809,-146},
{9084376,-145},{10723687,-145},{10945641,-145},{14224265,-145},{15334037,-145},{16085530,-145},
{9084376,-144},{10945641,-144},{11654320,-144},{12584953,-144},{14224265,-144},{16085530,-144},
{8726097,-143},{10945642,-143},{14224264,-143},{15334037,-143},{15863576,-143},{16646587,-143},
{10258370,-142},{14911536,-142},{15334037,-142},{15598806,-142},{16128346,-142},{16550847,-142},
{10258370,-141},{12162452,-141},{14567900,-141},{14911536,-141},{15334037,-141},{15598806,-141},
{9914735,-140},{10179504,-140},{12162452,-140},{14010189,-140},{15334037,-140},{15598807,-140},
{8923261,-139},{9914735,-139},{12162452,-139},{13086320,-139},{15334037,-139},{15598807,-139},
{8923261,-138},{10376669,-138},{12624386,-138},{14872103,-138},{15235455,-138},{16226928,-138},
{9104937,-137},{11269560,-137},{12624386,-137},{14872103,-137},{15235455,-137},{16226928,-137},
{9021844,-136},{11269560,-136},{11269561,-136},{13070831,-136},{15764994,-136},{16226928,-136},
{9014099,-135},{9021844,-135},{11269560,-135},{11269561,-135},{12170196,-135},{15764994,-135},
{9014099,-134},{9014100,-134},{9021844,-134},{9241195,-134},{10141830,-134},{11269560,-134},
{9014099,-133},{9014100,-133},{10141830,-133},{11269561,-133},{11277305,-133},{13540510,-133},
{9014099,-132},{9014100,-132},{10141830,-132},{11269561,-132},{13540510,-132},{14652752,-132},
{9014100,-131},{10141830,-131},{11269561,-131},{12677287,-131},{14652752,-131},{16340475,-131},
{12677287,-130},{13540510,-130},{14365011,-130},{14652752,-130},{15764994,-130},{16340476,-130},
{9877322,-129},{10989564,-129},{12677287,-129},{14508882,-129},{15764994,-129},{16196605,-129},
{9157970,-128},{9877322,-128},{12677287,-128},{13593085,-128},{15764994,-128},{16196605,-128},
{8961525,-127},{9157970,-127},{12219389,-127},{12677287,-127},{13593085,-127},{16680791,-127},
{8700072,-126},{9157970,-126},{10793119,-126},{16222892,-126},{16680790,-126},{16680791,-126},
{8700072,-125},{9157970,-125},{11447462,-125},{15895720,-125},{16353619,-125},{16680791,-125},
{9157970,-124},{11447462,-124},{14064127,-124},{15045287,-124},{15503185,-124},{16418983,-124},
{11447462,-123},{11447463,-123},{12755794,-123},{14064127,-123},{15044933,-123},{15045287,-123},
{11447462,-122},{12101629,-122},{12755794,-122},{12755795,-122},{15045287,-122},{16353265,-122},
{12101628,-121},{12428712,-121},{12755794,-121},{12755795,-121},{15045287,-121},{16353265,-121},
{8504158,-120},{10139130,-120},{12428712,-120},{12755794,-120},{13409961,-120},{13736601,-120},
{11774545,-119},{12428712,-119},{12592253,-119},{12755794,-119},{13409961,-119},{15372016,-119},
{10956838,-118},{11774545,-118},{12428712,-118},{12592253,-118},{12755794,-118},{13409961,-118},
{9648063,-117},{10956838,-117},{11774546,-117},{12592253,-117},{13409960,-117},{15045376,-117},
{9853043,-116},{10956838,-116},{12346719,-116},{12592253,-116},{15045376,-116},{15331463,-116},
{10813795,-115},{10956838,-115},{12592253,-115},{13696047,-115},{14370711,-115},{15045376,-115},
{8554961,-114},{10956838,-114},{13696047,-114},{14370712,-114},{14851087,-114},{16629545,-114},
{8554961,-113},{9566957,-113},{11631502,-113},{13696047,-113},{14370711,-113},{15760593,-113},
{8554961,-112},{9566957,-112},{11462836,-112},{13696047,-112},{14370711,-112},{15760593,-112},
{8554961,-111},{8723627,-111},{11462836,-111},{13696047,-111},{14286378,-111},{16603923,-111},
{8723626,-110},{10322727,-110},{11631502,-110},{14117713,-110},{14539378,-110},{16603923,-110},
{11420669,-109},{12431052,-109},{14117713,-109},{14328545,-109},{14539378,-109},{16603923,-109},
{11420669,-108},{11420670,-108},{14328545,-108},{15549760,-108},{15677067,-108},{16603923,-108},
{9356124,-107},{9861316,-107},{10322727,-107},{11420669,-107},{11420670,-107},{14495598,-107},
{8576447,-106},{10640993,-106},{10871698,-106},{11420669,-106},{11420670,-106},{15044569,-106},
{10640993,-105},{11420669,-105},{11420670,-105},{11810508,-105},{14770083,-105},{15044569,-105},
{9471477,-104},{11420669,-104},{11420670,-104},{11810508,-104},{13095376,-104},{16546247,-104},
{11146184,-103},{11420669,-103},{12546405,-103},{13369862,-103},{14207216,-103},{15319055,-103},
{9759859,-102},{11146184,-102},{11420669,-102},{12813943,-102},{14763135,-102},{15319055,-102},
{9752911,-101},{9759859,-101},{11420669,-101},{14763135,-101},{15459772,-101},{16712328,-101},
{9056275,-100},{12532509,-100},{13932730,-100},{15332951,-100},{16015691,-100},{16712327,-100},
{8704482,-99},{9401118,-99},{10449547,-99},{10794392,-99},{12532509,-99},{13932730,-99},
{8704482,-98},{9401118,-98},{11491028,-98},{12532509,-98},{14974210,-98},{15146633,-98},
{9228697,-97},{9408067,-97},{10808288,-97},{13753359,-97},{14615470,-97},{16015691,-97},
{9228697,-96},{11311658,-96},{12711879,-96},{14112100,-96},{16015691,-96},{16626116,-96},
{9659752,-95},{10054650,-95},{14363785,-95},{15189738,-95},{15764006,-95},{16626116,-95},
{8833799,-94},{9031248,-94},{14363785,-94},{15189738,-94},{16589959,-94},{16626116,-94},
{8833799,-93},{13537832,-93},{14112100,-93},{14776762,-93},{15189738,-93},{15602714,-93},
{11392303,-92},{11472949,-92},{13537832,-92},{14776762,-92},{15189738,-92},{15602715,-92},
{10153374,-91},{11392303,-91},{11472949,-91},{13084533,-91},{15189738,-91},{15602715,-91},
{9408067,-90},{9780721,-90},{12218257,-90},{14112100,-90},{15602714,-90},{15975368,-90},
{8461145,-89},{9307260,-89},{12218257,-89},{13165178,-89},{15602714,-89},{16448829,-89},
{8461145,-88},{9070529,-88},{9916643,-88},{11608873,-88},{12218257,-88},{12691717,-88},
{8522298,-87},{8675180,-87},{12218256,-87},{16418253,-87},{16448829,-87},{16685560,-87},
{8522298,-86},{8759028,-86},{10221335,-86},{14451908,-86},{16418253,-86},{16685560,-86},
{10221336,-85},{10458066,-85},{10694796,-85},{13453448,-85},{14451908,-85},{15450368,-85},
{10458066,-84},{10694796,-84},{10838931,-84},{11837391,-84},{13453448,-84},{15450369,-84},
{9747875,-83},{10931527,-83},{12835852,-83},{13072583,-83},{15450368,-83},{16397290,-83},
{9032442,-82},{9747875,-82},{10931527,-82},{12835852,-82},{13072582,-82},{14261476,-82},
{9032442,-81},{9269173,-81},{11410229,-81},{13072582,-81},{14261476,-81},{14855922,-81},
{9242970,-80},{9974124,-80},{12241405,-80},{13072583,-80},{15692340,-80},{16044815,-80},
{8411793,-79},{8853585,-79},{9142947,-79},{16044815,-79},{16460403,-79},{16523517,-79},
{8727358,-78},{8853585,-78},{9142947,-78},{16044815,-78},{16460403,-78},{16523517,-78},
{9716318,-77},{10131906,-77},{10389712,-77},{10963084,-77},{12467655,-77},{16523517,-77},
{9300730,-76},{10131906,-76},{11378672,-76},{13456614,-76},{15405654,-76},{15821243,-76},
{10131906,-75},{11378672,-75},{12976575,-75},{13456614,-75},{14990066,-75},{15405654,-75},
{8534004,-74},{10611946,-74},{11554240,-74},{12976575,-74},{14990066,-74},{15405654,-74},
{9078495,-73},{9189613,-73},{14223340,-73},{15756791,-73},{16412399,-73},{16745751,-73},
{8478446,-72},{13567732,-72},{14223340,-72},{14878948,-72},{16412399,-72},{16467958,-72},
{8889588,-71},{10667505,-71},{11323113,-71},{13567732,-71},{16412399,-71},{16767983,-71},
{8522910,-70},{8889588,-70},{9178519,-70},{13567731,-70},{15345649,-70},{15812350,-70},
{8889587,-69},{9450742,-69},{9545196,-69},{11228660,-69},{13567731,-69},{15812350,-69},
{8889587,-68},{9450742,-68},{12350969,-68},{12398195,-68},{13006577,-68},{15954031,-68},
{8889588,-67},{10567482,-67},{10620278,-67},{13478847,-67},{13662185,-67},{14737267,-67},
{8653453,-66},{10620278,-66},{11813427,-66},{13662185,-66},{14199727,-66},{15392876,-66},
{9427129,-65},{11813427,-65},{13662185,-65},{14468497,-65},{15392876,-65},{15661647,-65},
{9813966,-64},{11082468,-64},{11544657,-64},{13275348,-64},{14468497,-64},{16392606,-64},
{8470114,-63},{9620548,-63},{10587642,-63},{12888510,-63},{13275347,-63},{15199457,-63},
{9523838,-62},{9620547,-62},{11447948,-62},{11738076,-62},{12888510,-62},{13275347,-62},
{9523838,-61},{9620547,-61},{11254529,-61},{11447948,-61},{13372057,-61},{16209866,-61},
{9620548,-60},{10437538,-60},{10587642,-60},{11738076,-60},{12888510,-60},{14189047,-60},
{8803557,-59},{10437538,-59},{10587642,-59},{11904797,-59},{14839317,-59},{15823029,-59},
{8803557,-58},{9295413,-58},{10270816,-58},{11904797,-58},{15823029,-58},{15981442,-58},
{12888510,-57},{13046922,-57},{14514182,-57},{14672595,-57},{15981442,-57},{16456680,-57},
{10112404,-56},{13046922,-56},{14514182,-56},{14672595,-56},{15981442,-56},{16456680,-56},
{8724350,-55},{10112404,-55},{10885636,-55},{14514182,-55},{15981442,-55},{16060648,-55},
{8724350,-54},{9804994,-54},{10112404,-54},{10885636,-54},{13433539,-54},{16060648,-54},
{8724351,-53},{11896489,-53},{12888510,-53},{13433539,-53},{14127565,-53},{15366621,-53},
{8724351,-52},{10657433,-52},{13433539,-52},{14127566,-52},{15366621,-52},{16135146,-52},
{10037905,-51},{12429748,-51},{13433539,-51},{14127566,-51},{14437330,-51},{14747093,-51},
{9418377,-50},{10657433,-50},{12888510,-50},{14127565,-50},{14437330,-50},{15986149,-50},
{9573259,-49},{10657433,-49},{12888510,-49},{14282447,-49},{14437329,-49},{14437330,-49},
{9573259,-48},{9883023,-48},{13662920,-48},{14359888,-48},{14437329,-48},{14437330,-48},
{9495818,-47},{11339690,-47},{11431843,-47},{14050124,-47},{14437330,-47},{15211739,-47},
{9302215,-46},{9495818,-46},{11431843,-46},{13275715,-46},{14437330,-46},{15211739,-46},
{8527806,-45},{9495818,-45},{11869772,-45},{14437330,-45},{15211739,-45},{16179752,-45},
{8405642,-44},{10779596,-44},{11869773,-44},{12837785,-44},{14437330,-44},{15211739,-44},
{9495818,-43},{10463830,-43},{11869772,-43},{11869773,-43},{15914711,-43},{16709835,-43},
{9495818,-42},{11166801,-42},{11869772,-42},{11869773,-42},{13892242,-42},{16709835,-42},
{10507052,-41},{11166801,-41},{11518287,-41},{11869773,-41},{12881007,-41},{13892242,-41},
{9760859,-40},{11166802,-40},{11518287,-40},{11869772,-40},{12221258,-40},{13275715,-40},
{8814458,-39},{9760859,-39},{11518287,-39},{11869772,-39},{13275715,-39},{14573602,-39},
{8814458,-38},{9760859,-38},{11518287,-38},{11869772,-38},{14573602,-38},{15276573,-38},
{8760431,-37},{9273999,-37},{9760859,-37},{10004290,-37},{10517858,-37},{16277001,-37},
{9760859,-36},{10517858,-36},{11018072,-36},{12018502,-36},{14276144,-36},{14519574,-36},
{11018072,-35},{12018501,-35},{13647537,-35},{14147752,-35},{14276144,-35},{14519574,-35},
{9453233,-34},{9953448,-34},{11018072,-34},{12018501,-34},{13147323,-34},{15648395,-34},
{8953018,-33},{9517429,-33},{9760859,-33},{11133111,-33},{12018502,-33},{15404965,-33},
{8953018,-32},{9517429,-32},{9760859,-32},{9921350,-32},{11133111,-32},{11210661,-32},
{8468853,-31},{8872774,-31},{8953018,-31},{9035959,-31},{9113509,-31},{9760859,-31},
{8712284,-30},{8789833,-30},{8958409,-30},{9113508,-30},{9528211,-30},{9915959,-30},
{8479635,-29},{8589220,-29},{8712284,-29},{8789833,-29},{8867383,-29},{8958409,-29},
{8434121,-28},{8450140,-28},{8479635,-28},{8527689,-28},{8589220,-28},{8867383,-28},
{8434122,-27},{8559725,-27},{8605238,-27},{8616175,-27},{8685329,-27},{8843743,-27},
{8423185,-26},{8428653,-26},{8434122,-26},{8474166,-26},{8581599,-26},{8616175,-26},
{8408630,-25},{8423185,-25},{8428653,-25},{8434122,-25},{8450527,-25},{8485103,-25},
{8392225,-24},{8419568,-24},{8423184,-24},{8430419,-24},{8436059,-24},{8477869,-24},
{8390416,-23},{8392225,-23},{8412333,-23},{8419568,-23},{8430419,-23},{8436059,-23},
{8390416,-22},{8392225,-22},{8397651,-22},{8403184,-22},{8403291,-22},{8412333,-22},
{8390416,-21},{8392225,-21},{8394992,-21},{8395949,-21},{8397651,-21},{8403291,-21},
{8389458,-20},{8390309,-20},{8392547,-20},{8395950,-20},{8396487,-20},{8401053,-20},
{8389458,-19},{8390309,-19},{8391854,-19},{8392547,-19},{8392861,-19},{8396487,-19},
{8388765,-18},{8389458,-18},{8389806,-18},{8390309,-18},{8392391,-18},{8392547,-18},
{8388764,-17},{8388921,-17},{8389391,-17},{8390500,-17},{8391139,-17},{8391921,-17},
{8388764,-16},{8388921,-16},{8389091,-16},{8389391,-16},{8389476,-16},{8389873,-16},
{8388764,-15},{8388849,-15},{8388921,-15},{8388964,-15},{8389091,-15},{8389391,-15},
{8388637,-14},{8388791,-14},{8388850,-14},{8388878,-14},{8388975,-14},{8389449,-14},
{8388622,-13},{8388637,-13},{8388791,-13},{8388850,-13},{8388937,-13},{8388975,-13},
{8388622,-12},{8388637,-12},{8388681,-12},{8388719,-12},{8388722,-12},{8388791,-12},
{8388622,-11},{8388637,-11},{8388658,-11},{8388663,-11},{8388681,-11},{8388719,-11},
{8388616,-10},{8388625,-10},{8388629,-10},{8388651,-10},{8388664,-10},{8388715,-10},
{8388616,-9},{8388625,-9},{8388629,-9},{8388632,-9},{8388651,-9},{8388609,-8},
{8388616,-8},{8388619,-8},{8388629,-8},{8388613,-7},{8388614,-7},{8388618,-7},
{8388619,-7},{8388629,-7},{8388631,-7},{8388610,-6},{8388613,-6},{8388614,-6},
{8388615,-6},{8388619,-6},{8388609,-5},{8388610,-5},{8388611,-5},{8388613,-5},
{8388615,-5},{8388608,-4},{8388609,-4},{8388611,-4},{8388615,-4},{8388608,-3},
{8388609,-3},{8388611,-3},{8388609,-2},{8388608,2},{8388608,3},{8388611,3},
{8388612,3},{8388608,4},{8388610,4},{8388608,5},{8388609,5},{8388611,5},
{8388608,6},{8388610,6},{8388614,6},{8388624,6},{8388626,6},{8388609,7},
{8388611,7},{8388619,7},{8388631,7},{8388632,7},{8388609,8},{8388611,8},
{8388612,8},{8388616,8},{8388622,8},{8388628,8},{8388608,9},{8388611,9},
{8388612,9},{8388620,9},{8388630,9},{8388608,10},{8388617,10},{8388621,10},
{8388645,10},{8388708,10},{8388730,10},{8388610,11},{8388615,11},{8388623,11},
{8388666,11},{8388709,11},{8388729,11},{8388611,12},{8388614,12},{8388624,12},
{8388636,12},{8388677,12},{8388614,13},{8388661,13},{8388714,13},{8388724,13},
{8388886,13},{8388927,13},{8388612,14},{8388662,14},{8388674,14},{8388701,14},
{8388838,14},{8389151,14},{8388618,15},{8388632,15},{8388638,15},{8388681,15},
{8388950,15},{8389175,15},{8388806,16},{8389007,16},{8389118,16},{8389800,16},
{8389888,16},{8391450,16},{8388694,17},{8388778,17},{8389035,17},{8389090,17},
{8390256,17},{8390994,17},{8388764,18},{8389049,18},{8389076,18},{8389659,18},
{8391222,18},{8391591,18},{8388757,19},{8389056,19},{8389069,19},{8389361,19},
{8390327,19},{8390923,19},{8389694,20},{8390327,20},{8390923,20},{8391257,20},
{8391556,20},{8398736,20},{8388747,21},{8389378,21},{8390941,21},{8394680,21},
{8402195,21},{8402493,21},{8388746,22},{8388905,22},{8389220,22},{8390783,22},
{8392504,22},{8396559,22},{8395470,23},{8401405,23},{8403283,23},{8419996,23},
{8455004,23},{8459059,23},{8389141,24},{8392109,24},{8396954,24},{8409217,24},
{8426721,24},{8448279,24},{8393789,25},{8401602,25},{8403086,25},{8423358,25},
{8451642,25},{8462421,25},{8425039,26},{8449961,26},{8464102,26},{8501483,26},
{8686017,26},{8696796,26},{8411738,27},{8449960,27},{8450801,27},{8463262,27},
{8645273,27},{8737540,27},{8405088,28},{8424199,28},{8430850,28},{8444150,28},
{8567989,28},{8619511,28},{8414644,29},{8421294,29},{8460356,29},{8508974,29},
{8678526,29},{8704287,29},{8538481,30},{8649019,30},{8704287,30},{8733794,30},
{9680849,30},{9850401,30},{8468459,31},{8663772,31},{8719041,31},{9234956,31},
{9319732,31},{10211518,31},{8433448,32},{8523728,32},{8628761,32},{8754052,32},
{9500290,32},{10030960,32},{8433448,33},{9144677,33},{9410011,33},{11272857,33},
{11453415,33},{16336228,33},{8611255,34},{8966870,34},{9587818,34},{13050926,34},
{16245949,34},{16336228,34},{8700159,35},{8966869,35},{9676721,35},{9854529,35},
{10564381,35},{13849682,35},{9855904,36},{10564380,36},{10564381,36},{11807654,36},
{12606409,36},{13849682,36},{10210142,37},{10564381,37},{11186017,37},{13228046,37},
{13849682,37},{16068829,37},{10387261,38},{10475821,38},{10564381,38},{13849682,38},
{13938242,38},{15358633,38},{10120723,39},{10564381,39},{13849682,39},{13938241,39},
{14293340,39},{15003535,39},{10033023,40},{10475821,40},{13672563,40},{13938242,40},
{14115361,40},{15713731,40},{8434652,41},{10475821,41},{12074192,41},{13938242,41},
{14825986,41},{15713732,41},{9144204,42},{11275006,42},{14825986,42},{15269859,42},
{15713732,42},{16512917,42},{8791040,43},{9590226,43},{10475821,43},{11275007,43},
{15713731,43},{16599327,43},{9765733,44},{10475821,44},{12695184,44},{13494369,44},
{14293554,44},{15713731,44},{9011096,45},{11230458,45},{12695184,45},{13494369,45},
{14293554,45},{16468368,45},{9498442,46},{9721184,46},{10520370,46},{13494369,46},
{14739039,46},{16468368,46},{9721184,47},{11607776,47},{12118740,47},{13494369,47},
{14869998,47},{15380962,47},{9177481,48},{9432962,48},{9721184,48},{11607776,48},
{13494369,48},{14869998,48},{8506036,49},{9432962,49},{10392629,49},{11607776,49},
{13494369,49},{16212887,49},{10841331,50},{12151480,50},{12822924,50},{14165814,50},
{14804518,50},{16180147,50},{9113610,51},{9785055,51},{12822924,51},{12822925,51},
{14804518,51},{16180147,51},{9113610,52},{10456499,52},{11303990,52},{12822924,52},
{12822925,52},{13813721,52},{9080870,53},{10456499,53},{11832128,53},{12822924,53},
{15189350,53},{15684749,53},{10456499,54},{11832128,54},{12822924,54},{14253837,54},
{15684748,54},{16620262,54},{8530189,55},{10456499,55},{12822924,55},{13538381,55},
{15684748,55},{16620262,55},{9631552,56},{11557863,56},{12107468,56},{13758438,56},
{14583385,56},{15684749,56},{8667859,57},{12107468,57},{12107469,57},{13896109,57},
{14033779,57},{15960089,57},{8667859,58},{12107469,58},{13001788,58},{13896109,58},
{14033779,58},{15960089,58},{8667859,59},{9562179,59},{12107469,59},{13001788,59},
{13448949,59},{16579068,59},{12107468,60},{12176842,60},{12726448,60},{14343269,60},
{14652758,60},{14722131,60},{8444279,61},{12107468,61},{12726448,61},{13225369,61},
{13724289,61},{16269579,61},{8444279,62},{10680079,62},{12666418,62},{12726448,62},
{13225368,62},{13225369,62},{10430618,63},{12726448,63},{13225369,63},{15221052,63},
{15770658,63},{16269579,63},{10430619,64},{11827993,64},{13225369,64},{15221052,64},
{15770658,64},{16269579,64},{8584016,65},{9282704,65},{10430619,65},{12526681,65},
{13225369,65},{15121664,65},{9382092,66},{10430619,66},{12776142,66},{15071970,66},
{15121664,66},{16219885,66},{9382092,67},{10430619,67},{10455466,67},{12776141,67},
{15071970,67},{16219885,67},{9295128,68},{10430619,68},{11603380,68},{12776141,68},
{16219885,68},{16232308,68},{8714959,69},{11603380,69},{12776141,69},{15639716,69},
{16232308,69},{16232309,69},{9195740,70},{9875297,70},{13948903,70},{15059547,70},
{16232308,70},{16480778,70},{8640418,71},{10152958,71},{14504225,71},{14781886,71},
{16232308,71},{16480778,71},{8640418,72},{10152958,72},{14504225,72},{14643055,72},
{16093478,72},{16758439,72},{8918079,73},{13671242,73},{14365395,73},{14643055,73},
{14781886,73},{15647795,73},{10808754,74},{10947584,74},{13671242,74},{14365394,74},
{14643055,74},{15753700,74},{9169263,75},{10947584,75},{11641737,75},{12725905,75},
{13671242,75},{14365394,75},{9559279,76},{10947584,76},{11588784,76},{13003565,76},
{13030042,76},{14365395,76},{10266669,77},{10279908,77},{10947584,77},{12309413,77},
{14338918,77},{14365395,77},{8898221,78},{8904841,78},{9579136,78},{12309413,78},
{12996947,78},{15713985,78},{9103411,79},{12996947,79},{13684480,79},{14372013,79},
{15647795,79},{16169854,79},{8937936,80},{10263360,80},{10950893,80},{12996947,80},
{15647795,80},{16335329,80},{8552800,81},{8937936,81},{9240333,81},{11286387,81},
{15730533,81},{16418066,81},{8552800,82},{9240333,82},{9240334,82},{10431107,82},
{15730533,82},{16418066,82},{8552800,83},{9240333,83},{12292865,83},{14740602,83},
{15730533,83},{16418067,83},{8552800,84},{9240333,84},{12292865,84},{13516734,84},
{14279867,84},{15730533,84},{8552800,85},{9240333,85},{12904799,85},{13516734,85},
{14279867,85},{15730533,85},{10691000,86},{12904799,86},{13210767,86},{13516733,86},
{13516734,86},{16630589,86},{10691000,87},{10843983,87},{13210766,87},{13516734,87},
{15883517,87},{16630589,87},{9354625,88},{9507608,88},{13057783,88},{13210766,88},
{13516734,88},{14547142,88},{12139882,89},{12904799,89},{13210767,89},{13363750,89},
{13516733,89},{14434635,89},{10022812,90},{12139882,90},{12904799,90},{13210767,90},
{13363750,90},{14434635,90},{9869829,91},{10022812,91},{11616790,91},{12904799,91},
{13363750,91},{16704688,91},{9869829,92},{10022812,92},{13363750,92},{14160739,92},
{14804743,92},{16704688,92},{11004855,93},{11769773,93},{12509991,93},{15754716,93},
{16334579,93},{16704687,93},{8919857,94},{11294787,94},{11584719,94},{15754715,94},
{16229702,94},{16704687,94},{8919857,95},{9209789,95},{11294787,95},{15754715,95},
{16467195,95},{16704687,95},{9209788,96},{10424992,96},{11294787,96},{12509991,96},
{13959649,96},{15754716,96},{10107322,97},{10701055,97},{11294787,97},{11888519,97},
{12192320,97},{13959649,97},{8767956,98},{10107322,98},{11294787,98},{12192320,98},
{13075985,98},{13821618,98},{10424992,99},{12634153,99},{13075984,99},{14277319,99},
{14843313,99},{15602815,99},{9347820,100},{12634152,100},{12634153,100},{12855068,100},
{14277319,100},{15381899,100},{9886406,101},{12634152,101},{12744611,101},{12855068,101},
{13738733,101},{15381899,101},{9886406,102},{12634152,102},{12799840,102},{12855068,102},
{13186443,102},{15381899,102},{12634153,103},{12910297,103},{13725029,103},{13738733,103},
{15381899,103},{16472775,103},{10300623,104},{12358007,104},{13738733,104},{15105754,104},
{15243827,104},{15381899,104},
};
} // namespace hard

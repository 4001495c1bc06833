{3176775668823963816ull, 1, 17578290830678728909ull},
{1361456750807628064ull, 1, 12135133088008552456ull},
{1755155955406466996ull, 1, 5097447048474029532ull},
{15502575802998063106ull, 1, 4709605007359109035ull},
{11596723656103821662ull, 1, 14626979155799761315ull},
{8092318833639555279ull, 1, 8446683545331684174ull},
{13151916484612640967ull, 1, 18422069467993254886ull},
{12094704538756774866ull, 1, 14141957443159469164ull},
{15327218941497513334ull, 1, 17104700295442306271ull},
{11148612246290401376ull, 1, 9638565324101663175ull},
{10125215775635761869ull, 1, 16767781385040751161ull},
{14150225354023944149ull, 1, 611866073349446461ull},
{10770000981780277282ull, 1, 3523050391891973669ull},
{10294792229763621149ull, 1, 1238983614564888145ull},
{17141169313279729187ull, 1, 4704721534606015184ull},
{3271412495926878441ull, 1, 5423850910800427162ull},
{18137733110511381088ull, 2, 7142231683973852535ull},
{6412477962718502478ull, 1, 14759725123317229836ull},
{5559659563475485006ull, 1, 11645806994437797760ull},
{5266188505101787995ull, 1, 7533249693158517686ull},
{7597135825742530679ull, 1, 14660878371651068667ull},
{7667430986962223582ull, 1, 15971359916950365699ull},
{4050117564573402663ull, 1, 9681544070328117364ull},
{16639703599740773114ull, 1, 13301410198101924007ull},
{1928306985516356473ull, 1, 13832374521914279449ull},
{6092149164926747004ull, 1, 11377855795187801359ull},
{14778901997830647628ull, 1, 11307228428986806829ull},
{11169762454494834825ull, 1, 15634643964161629556ull},
{5028059070395336634ull, 1, 9336391569240750755ull},
{1488993664743284160ull, 1, 4675066695437544940ull},
{7963878568879994624ull, 1, 765779409203922138ull},
{12491589428753223974ull, 1, 3284933675838975763ull},
{4141887505064809849ull, 1, 17275446438779630333ull},
{15445372769251133819ull, 1, 10318475430028830854ull},
{17205467735252100606ull, 1, 8106832671471742887ull},
{5580310852761534629ull, 1, 15516966023662190197ull},
{6541313496195409405ull, 1, 6582925744826749767ull},
{3890937821069334749ull, 1, 12539377409628166916ull},
{15781839754877210360ull, 1, 14602959203104719648ull},
{9053752422157469125ull, 1, 6900455801759958288ull},
{16527292231670650229ull, 2, 7138814861573837073ull},
{13020939770220992757ull, 1, 3329149227750196853ull},
{5434682617973749786ull, 1, 9419617094302534240ull},
{12820645255340046367ull, 1, 64921997732992484ull},
{1979583752056200512ull, 1, 10905669999759112527ull},
{2534029819526845415ull, 1, 13801722416753945192ull},
{13118315886235498000ull, 1, 14323902309632419841ull},
{14696329347289584804ull, 1, 931799008078451547ull},
{5342963262558394918ull, 1, 2740559077878324219ull},
{17632410290362007399ull, 1, 2072849915480630831ull},
{5218017126694668249ull, 1, 13560111691420221109ull},
{16988052117259459211ull, 1, 6050075275940265973ull},
{16637222618508781263ull, 1, 1435714352481474915ull},
{13597230679498803936ull, 1, 13161537934106661999ull},
{119025447346898513ull, 1, 16392736557160337577ull},
{16693351991465681854ull, 1, 16310752533268918499ull},
{6952954319397345050ull, 1, 11434199268847470608ull},
{1951874258331032274ull, 1, 15504824312777425169ull},
{14042617311201422845ull, 1, 7339114440856429765ull},
{8872456103008099155ull, 1, 4726309406031371733ull},
{13921885883347366464ull, 1, 17883937592775338477ull},
{650284126166293699ull, 1, 5283498889218557945ull},
{6639415515440222412ull, 1, 17188180339141103773ull},
{10795739611286228879ull, 1, 4361616808479777957ull},
{14577257012719974027ull, 1, 13516578347042062882ull},
{10916468011524346838ull, 1, 6348044853958958068ull},
{1637105166519918405ull, 1, 7093258612709469273ull},
{7350491855870020624ull, 2, 16123304381715537770ull},
{9206010452788079266ull, 1, 18425221257927019847ull},
{6058843966692012906ull, 1, 12147091277614987090ull},
{13822162598929970226ull, 1, 4440796501610380887ull},
{16839661658527815972ull, 1, 16903597575847957537ull},
{5690978567373148607ull, 1, 11720501783503866635ull},
{8480572439195043701ull, 1, 10710812933561030392ull},
{6766356548282448020ull, 1, 10119118406228499085ull},
{12844155823781910965ull, 1, 12267540729918956741ull},
{3429708211280136561ull, 2, 4685018581792759063ull},
{3146638907270485295ull, 1, 15917154144119406750ull},
{6421991193372556516ull, 2, 11856863247677388727ull},
{16673806484657743710ull, 2, 4066750009766694063ull},
{4035700640829340444ull, 1, 17888404832973850159ull},
{3685859566454865819ull, 1, 12479603998146226626ull},
{12235565466885035927ull, 1, 545207775346808804ull},
{9198233863011701738ull, 1, 16648718056840848919ull},
{14359617481496429137ull, 1, 380752259474716643ull},
{17119153857189349553ull, 1, 241076654329278179ull},
{4382842912943193207ull, 1, 4905417349017536367ull},
{12455221137196762878ull, 1, 6315934324210848685ull},
{9582645591544513369ull, 1, 8773033045935047134ull},
{14177036564710221943ull, 1, 14886128967000072923ull},
{12900627312379883576ull, 1, 4863407905883192435ull},
{15393014924315706428ull, 1, 15255176069776399323ull},
{8881730276021460064ull, 1, 8649490924062887453ull},
{17354794935459197009ull, 1, 9697079558501692415ull},
{2068059310772723042ull, 1, 14932811668360108354ull},
{1337967440737180686ull, 1, 4713660776174425041ull},
{11609278945003770997ull, 1, 5243397294214462751ull},
{18234184142579395391ull, 1, 12443042995637546674ull},
{13571617517587654379ull, 1, 17529885240106688471ull},
{14253514826740382518ull, 1, 15144209874383368151ull},
{16759581660133625955ull, 1, 4032613233968719557ull},
{11781983075477311963ull, 2, 5542580574760602799ull},
{17653611807285629079ull, 2, 15144436963320900365ull},
{15478351114807907756ull, 2, 4581807940110243965ull},
{10109842964726813456ull, 1, 13231692769987527649ull},
{17286228938078002193ull, 1, 4140066246662379291ull},
{11346525460262724356ull, 1, 4156363974596427703ull},
{4826488838970156867ull, 2, 5400275911431518343ull},
{17407302143960984676ull, 1, 1718752459602405785ull},
{3994808489833421560ull, 1, 7214850931191594941ull},
{14995856901362202542ull, 2, 7599919676725426679ull},
{861383353103065071ull, 2, 14433893950724910471ull},
{15470075437815397877ull, 1, 6963553163860820320ull},
{4031781663411547257ull, 1, 14465383739983573599ull},
{5356320863256421771ull, 1, 11931902909692017968ull},
{9327435515887412079ull, 1, 15939236817921031308ull},
{12860640265219424390ull, 1, 8975896748569615945ull},
{1273868360355240982ull, 1, 8448651801659654784ull},
{1854777868538931318ull, 1, 13026714190300132392ull},
{17750459175618237143ull, 2, 18403247278079177319ull},
{11597358342926409484ull, 1, 1054545330660624973ull},
{9637910449881997928ull, 1, 5143891755744454446ull},
{18123089957055413470ull, 2, 8134452876082041781ull},
{9103963719863107898ull, 1, 13238190010476389981ull},
{17455443726356889482ull, 1, 4181440551668462585ull},
{8071114911979424324ull, 1, 15992010299539041025ull},
{9648323186060638017ull, 1, 5620706933241979862ull},
{11076422987780945408ull, 1, 2738767894279079148ull},
{11423181194105676013ull, 1, 1889859761155405392ull},
{7229692259264327357ull, 1, 6399591964644883980ull},
{12830606146879728033ull, 2, 12095905821997634599ull},
{16932276511637104074ull, 1, 13401246134481743536ull},
{48906624000539296ull, 1, 10196655458829112322ull},
{17291604970707834617ull, 1, 9279830401626679389ull},
{10855670676509692324ull, 1, 14969074310948265991ull},
{1064534836725311127ull, 1, 7390002920371184258ull},
{13094364032317048617ull, 1, 8769030429860790691ull},
{18130409182956674104ull, 1, 4150016825467082609ull},
{9568072795205232ull, 1, 10054062728030320617ull},
{13256701313148194711ull, 1, 10788926264710977259ull},
{14820092270760715035ull, 2, 9574918219177984911ull},
{1927648349143885739ull, 1, 2599083129427722031ull},
{10833837027625651345ull, 1, 15671830714844752470ull},
{2595239602984394695ull, 1, 9114049294762609353ull},
{15050915325265398595ull, 1, 6292452089222404514ull},
{7837201172251149803ull, 1, 7293878709559531399ull},
{13504155429108684730ull, 1, 8772441852300010223ull},
{9813273827528081684ull, 1, 10625869813130517327ull},
{8641584775527622499ull, 1, 8209853490939656238ull},
{12648021999292454698ull, 1, 15837450194205917512ull},
{17930326909663986187ull, 1, 3835025365995677346ull},
{5393654209262179262ull, 1, 6101367586635088241ull},
{10081154061853236186ull, 1, 2636989337230400288ull},
{2459362582977130679ull, 1, 13321950252445033576ull},
{8983548938845923329ull, 1, 1069652973963200368ull},
{7684006921472062916ull, 2, 7990979658658690823ull},
{16498038008959544468ull, 2, 5390983314218525181ull},
{16710517316463227315ull, 1, 1192335789809226698ull},
{13076548405147890131ull, 1, 5702091302693154502ull},
{12378772377225268451ull, 1, 16933507754243012211ull},
{11597846756449159653ull, 1, 17253501533101962349ull},
{4837196529379108570ull, 1, 14226676218731559419ull},
{17317964937347291260ull, 1, 12337067284000249740ull},
{5407902196153586841ull, 2, 5703813392485036041ull},
{5803889199439722393ull, 2, 6498194479511640181ull},
{16438903881630832626ull, 1, 10565387437898847476ull},
{16256049435244505884ull, 1, 8869763206935123454ull},
{1758828910078779477ull, 1, 2719819322943489948ull},
{11741019042984975217ull, 1, 12802782287047979982ull},
{11811033020087155644ull, 1, 14973931807277249510ull},
{12537765839451799809ull, 1, 12629632272282480300ull},
{1534537734519006049ull, 1, 5283098214789973016ull},
{6759604184075800841ull, 1, 12876512828166792568ull},
{1665313766247233036ull, 1, 16495718344610562331ull},
{12835991133490596722ull, 1, 14408403400069353768ull},
{13008991454485784549ull, 1, 1843811285920135936ull},
{3651818347297917423ull, 1, 2701214335663424582ull},
{4464246234019143956ull, 1, 4245207595334298499ull},
{13708339152001039298ull, 1, 16773070095565930902ull},
{3213959172900198287ull, 1, 10724633222467940149ull},
{7442107769673427296ull, 1, 15953112070141775641ull},
{9518770085328532804ull, 1, 13365906367508547149ull},
{14154130180858446090ull, 1, 11445536832941296160ull},
{10339366971313667089ull, 1, 3962676196831090400ull},
{15646323032222934489ull, 1, 8990573863129466974ull},
{9083291891236064962ull, 1, 1748253231420263809ull},
{6414462763049341941ull, 1, 15241408279097733852ull},
{5482104947264359194ull, 1, 297696567852880042ull},
{15215070827762305736ull, 1, 16423387300144693000ull},
{1782691883830690669ull, 1, 4506613189138953943ull},
{2003264118492284151ull, 1, 5758951120246713014ull},
{6358295318927453219ull, 1, 16661042085525169151ull},
{12164517071600685969ull, 1, 4469611089893708412ull},
{4715903531845359133ull, 2, 12584510637780964837ull},
{659089024847171672ull, 1, 1954140647247475820ull},
{14290057462711500859ull, 1, 8733372530082225049ull},
{4248428280198679271ull, 1, 18341610209928688325ull},
{15804803151123174577ull, 2, 11755934120068570909ull},
{5291989963513919908ull, 1, 5986906267345155211ull},
{3279914126438714253ull, 1, 4678657186990570330ull},
{953734911132420053ull, 1, 12110759690505268065ull},
{15400701966937574872ull, 2, 8167972157684977479ull},
{18064621606990039185ull, 1, 18373216564418416460ull},
{9588255302929777920ull, 1, 17136904199322756629ull},
{14714951929469088211ull, 1, 10160660967076932079ull},
{16337269416240119369ull, 1, 8590397823877798222ull},
{4618049189853353880ull, 1, 5698925869304077085ull},
{9599126431971152185ull, 1, 13932630787213282291ull},
{5962296770174931162ull, 1, 10901448447476447427ull},
{711180932619368989ull, 1, 5958901779477282677ull},
{2823590604521939374ull, 2, 11886671097631731621ull},
{6060169140728160278ull, 2, 15921782360910645117ull},
{14236725769894797938ull, 1, 1672992439058341228ull},
{858171152545152445ull, 1, 11574983010696853725ull},
{9004917964655130330ull, 1, 14374980796383066139ull},
{4762162255226795326ull, 1, 16999113128059275561ull},
{8693298083586635442ull, 1, 14512466896429089362ull},
{14659786239129336466ull, 1, 1472260205526182131ull},
{6416013491780198422ull, 2, 9302753264419462127ull},
{13905909036784457162ull, 1, 10870318291969891476ull},
{9202013635224018851ull, 1, 12169345656457890079ull},
{13638385630053363923ull, 1, 9939824417666697119ull},
{6482347035793634251ull, 1, 14943512606887964952ull},
{7328033362782096231ull, 1, 2696825370957184553ull},
{18192543026614443006ull, 1, 3983465659460139047ull},
{9139440157427538792ull, 1, 15852334694393602561ull},
{2558266894451292033ull, 2, 185697640956309823ull},
{8259841029549948220ull, 1, 10869689083935990126ull},
{4427609171594878674ull, 1, 333005107630463691ull},
{7534058845886935588ull, 1, 15971879996997168316ull},
{14459993124384347210ull, 2, 13887407569606124341ull},
{5397673941785047044ull, 2, 2583472302238828023ull},
{8386000311061713636ull, 1, 4893641814277993114ull},
{17800602345021360716ull, 2, 9501753795784125981ull},
{6365396962742899745ull, 1, 16925282568445255142ull},
{11475624688879223814ull, 1, 2357720051752477498ull},
{11806798032820714203ull, 1, 5109375910165812502ull},
{8113273515591124675ull, 1, 5609657714019631040ull},
{18121068535622662602ull, 2, 1684252495125545999ull},
{7021068416714832758ull, 1, 9241412166152916345ull},
{9832531132755888873ull, 1, 1594437762085885058ull},
{9621907320359104790ull, 1, 9934940016488314154ull},
{6783756853127747993ull, 1, 14639106073570749256ull},
{13306186772213571878ull, 1, 6828417834061738277ull},
{16773780539647280278ull, 1, 11927148720850489748ull},
{553102523907016692ull, 1, 14902556672160175031ull},
{1516405471034428611ull, 1, 3321808605589958456ull},
{11146430975705273085ull, 1, 13440257788100711020ull},
{7959716954882281688ull, 1, 17154176652481246304ull},
{4716337461447913135ull, 1, 10529311819950043599ull},
{9920680128585595610ull, 1, 15388481889695119550ull},
{6309927587165687940ull, 1, 14217677888570115698ull},
{15983922493651655886ull, 1, 2958019853961259447ull},
{10476441317964858783ull, 1, 9949049688853541856ull},
{17969468403811430719ull, 1, 580463452583908071ull},
{6736644780242930844ull, 1, 13698871711735259397ull},
{9391612252707120133ull, 1, 17530125364167830546ull},
{13108251825203085842ull, 1, 10797467099804339717ull},
{15790514610865101504ull, 1, 5424755901354289167ull},
{9505444523256271617ull, 1, 559674963381079226ull},
{4413512565146232272ull, 1, 234183039912659382ull},
{5718497746069848493ull, 1, 17066127077062265131ull},
{17015172913421296706ull, 1, 16826930497859692434ull},
{1750571696055017108ull, 1, 14422216832470752789ull},
{17462141796463446008ull, 1, 12079476428542144859ull},
{880144800753509402ull, 1, 7388916697918327209ull},
{16179796875161344611ull, 1, 9104443792274297242ull},
{3100297292432351950ull, 1, 1005849848265355362ull},
{17174041478096429209ull, 1, 5461485126068393339ull},
{9072386784062731020ull, 2, 17921793900045398767ull},
{17313318786542525368ull, 1, 828170126999190880ull},
{18162356225649966261ull, 1, 15932901379788105146ull},
{10588180214995241990ull, 1, 9622379917148245900ull},
{17413765187806506655ull, 1, 13758158716019702347ull},
{10901024688054559730ull, 1, 11852173862900168347ull},
{16182230322142122236ull, 1, 14814016016875287547ull},
{10153229024900864425ull, 1, 11683965971387276779ull},
{14538447120183142141ull, 1, 12522601421342877517ull},
{17707646685878667909ull, 1, 6539649347129982642ull},
{1739021319835551382ull, 1, 4751348972668330381ull},
{2048706413877273693ull, 1, 1242832533686497698ull},
{16547571081913268673ull, 1, 12468865019037520655ull},
{298784486902266337ull, 1, 17509219437922615742ull},
{2245681705643053426ull, 1, 637067389923722944ull},
{4782095627301639475ull, 1, 17064250155115461144ull},
{4474370276982475315ull, 2, 2751369417982526335ull},
{264827619206447920ull, 1, 13976472353531791946ull},
{11466709858720904584ull, 1, 18396058302823824942ull},
{7146482286146966899ull, 1, 9274296598685178225ull},
{5490933791072848809ull, 1, 9105585344248790356ull},
{8170312571402045154ull, 1, 14305208827678418544ull},
{11362591628672307510ull, 1, 15902759237783586777ull},
{18149094221502975514ull, 1, 10984368427973482744ull},
{15864543389891080504ull, 1, 13695636583133981064ull},
{6339124852075022948ull, 4, 13964135910437223316ull},
{365622149429216447ull, 1, 3109834342313023855ull},
{18101545709639280984ull, 1, 12603047051808258629ull},
{11361826897235361747ull, 1, 8454825660844199295ull},
{11219333384314548501ull, 1, 14027299034033348486ull},
{11104716030366261273ull, 1, 14249849552406812620ull},
{1310339140662018162ull, 1, 11966506584502118881ull},
{8696357814763478430ull, 1, 15003747749393918867ull},
{7516217681151973875ull, 1, 15680718756450747693ull},
{10322115012511963726ull, 1, 8480064393470801484ull},
{8724058385032712496ull, 1, 2708120387211254478ull},
{7736644993377583409ull, 1, 10194338221667675450ull},
{12634403575016466845ull, 1, 14572066700182284356ull},
{9115068357794732356ull, 1, 9506105845092049993ull},
{16296465590682858214ull, 1, 9720380120550827206ull},
{18135101495398071655ull, 1, 13545864497598336906ull},
{6257832579653417513ull, 1, 4563876504361381590ull},
{1819925949927520874ull, 1, 14971254162353994486ull},
{11697121640104021861ull, 1, 10801508148958564019ull},
{2738931815603786713ull, 2, 13718145706777066765ull},
{2307885570716169620ull, 1, 16483818539069487951ull},
{6005543102821981144ull, 1, 7290612638226122125ull},
{11119487118942082255ull, 1, 12417695432571415302ull},
{4781818593312864378ull, 1, 3127831105597513369ull},
{3151339225718217241ull, 1, 10295478784631076489ull},
{11738296383977492552ull, 1, 3478230622767446399ull},
{11852471325825890767ull, 2, 2874018961349944543ull},
{516419904002386194ull, 1, 650018333081750561ull},
{16695562202451288757ull, 1, 2286066443157355818ull},
{9072176310844237808ull, 1, 8391106978005425725ull},
{12302258864862774131ull, 1, 14768431470997400065ull},
{11626983996811811651ull, 1, 3284884821524016687ull},
{6604310998086007256ull, 1, 6182033194175040264ull},
{3685272779127940255ull, 1, 6004893384909776076ull},
{11126974037184400739ull, 1, 2147331053386513931ull},
{16599152563605713772ull, 1, 3093496333747172381ull},
{3369570307747166567ull, 1, 17708422494503774610ull},
{11081414118478173339ull, 2, 15737999124232688690ull},
{772012953480994280ull, 1, 17949843434673524190ull},
{11755237381415875274ull, 1, 3900002165981233479ull},
{8140217450187900156ull, 1, 4560433863381250666ull},
{4895977864908545939ull, 1, 9499971105573974677ull},
{6557507481895443590ull, 2, 5638235635624949145ull},
{8713166332012015000ull, 1, 1475867955926164632ull},
{17521979617825046427ull, 1, 2994809371961795353ull},
{16003804135065811896ull, 1, 16678571112295514364ull},
{903039551906763655ull, 1, 17514832927860232901ull},
{12414344186198232650ull, 1, 5572079058949844777ull},
{11824213895821673636ull, 1, 4579912271908401158ull},
{17726578164205312746ull, 1, 2550814118705960283ull},
{1770579151857069103ull, 2, 15635806934894581557ull},
{5904723984918409003ull, 1, 13869355715292726130ull},
{17209718036246646035ull, 1, 7714537743204154961ull},
{8266151065499052445ull, 1, 1372155980102860122ull},
{514770552309741190ull, 2, 6996771564628526093ull},
{5499273404163711309ull, 1, 8770422533899458386ull},
{11986346272210415436ull, 1, 7997091210779967410ull},
{9124556962031499827ull, 1, 6593282838244093195ull},
{10154833945167607418ull, 1, 15860603087703728803ull},
{11484794411444108888ull, 1, 5416263177794814807ull},
{13535176343662926201ull, 1, 16284628704331061265ull},
{7397242093617135703ull, 1, 11813123556419242864ull},
{5377637285100140113ull, 1, 7114022488683753192ull},
{14776839059526593282ull, 1, 7278569614030368511ull},
{4924625581243232497ull, 1, 13264822105065306496ull},
{3555120598740527130ull, 1, 14815266368603432053ull},
{17498696978534952533ull, 2, 7554427324769221045ull},
{8160417466451703258ull, 1, 7542317232655551692ull},
{14730959951457021507ull, 1, 3312480422950567648ull},
{5877114043601686032ull, 1, 7692370656794131ull},
{8394683137798599918ull, 1, 1112817964930185109ull},
{16322976913093329764ull, 1, 11300926147903346516ull},
{17804340366995303688ull, 1, 14689069573617042562ull},
{14342137501785715297ull, 2, 2464458441941400501ull},
{2486227616722067121ull, 1, 230178374724108047ull},
{3393358786013344798ull, 1, 3574940616815369709ull},
{11354152766991119914ull, 1, 11482327348312916069ull},
{10327932144359217040ull, 1, 7063430785306622282ull},
{18275346462987875724ull, 1, 11054096417761395576ull},
{17526439896776050190ull, 1, 10701642821763888597ull},
{5476232351629572877ull, 1, 18004569287551285756ull},
{17288628420955097903ull, 1, 5907243836317368064ull},
{1277893433627739552ull, 1, 15429942889389824411ull},
{18003873688939975456ull, 1, 13351572971188755496ull},
{13125350290360007368ull, 1, 4951305301798213614ull},
{8296586282793311486ull, 1, 11071137012231616058ull},
{3569281118573087659ull, 1, 7837580932310903520ull},
{6802622979707709480ull, 1, 10459801594506179608ull},
{5130663565609842579ull, 1, 12822339099137626818ull},
{7996206605454213428ull, 1, 9926756602863450142ull},
{3790743792893770379ull, 1, 3115665096447724665ull},
{2540768054868997595ull, 1, 10263941721070953492ull},
{15842809349613061040ull, 1, 2322372466687687182ull},
{9113654482074548787ull, 1, 3092036716743422407ull},
{5903756782816830857ull, 1, 690551523585135225ull},
{7339738057469979489ull, 2, 9421785964776975429ull},
{16804075332993467910ull, 2, 13205746563607763831ull},
{8576096014692986571ull, 1, 5840122426204507573ull},
{12327181298867625100ull, 1, 17926057353013385172ull},
{17946186509397434795ull, 1, 10267538600837430006ull},
{15789235347683679004ull, 1, 14392551067714439593ull},
{1163768437091846660ull, 1, 7357119010067122204ull},
{345661901654756060ull, 1, 11726852354750849548ull},
{2572553610935935738ull, 1, 13900834368212824669ull},
{119579606578857053ull, 1, 12770119764463941499ull},
{17841162154944705078ull, 1, 14725780860739427662ull},
{5756753962477862526ull, 1, 2679226486379568815ull},
{11718513782125248918ull, 1, 16239717472266208655ull},
{9846154181153328520ull, 2, 17041140169529155607ull},
{10374470957218947722ull, 1, 719776163480490313ull},
{5195640298640050363ull, 1, 6202533607830941301ull},
{6348516882824847005ull, 1, 1207003311194390233ull},
{17925806230185519674ull, 1, 2494494478653779877ull},
{5317941578073487415ull, 1, 13573361127032133784ull},
{4642902742259839481ull, 1, 5472737487742509998ull},
{9619018636084354837ull, 1, 6850539825539363776ull},
{17973460275228828558ull, 1, 15520345832990331871ull},
{13636865401317402704ull, 1, 5689745943316664328ull},
{12237483817594814626ull, 1, 13848276093535076543ull},
{392245122916478619ull, 1, 1059176622910167474ull},
{13810407340792195009ull, 1, 14522563311457749318ull},
{8602162681354749164ull, 1, 18240924212815405258ull},
{675474319903163212ull, 1, 6975665777082212229ull},
{16291162094399242951ull, 1, 5300373334683304484ull},
{18168690068155066148ull, 1, 8687587827685876038ull},
{10880030537664349368ull, 1, 15456446209748757592ull},
{12041556266237368631ull, 1, 12745196400289817512ull},
{10695147157186959803ull, 1, 3274859827383245886ull},
{6412368649733861813ull, 1, 8077509663790088164ull},
{492443790914666985ull, 1, 12663393317833611557ull},
{143258836622234767ull, 1, 10883490315700398931ull},
{17379853751610517078ull, 1, 15921062765557047713ull},
{15302452728111090709ull, 1, 4829569866701011817ull},
{5411102893146714551ull, 1, 3848056616175683265ull},
{12308402014228658913ull, 1, 7052898174878168265ull},
{6195315291992823914ull, 1, 1041963359521268665ull},
{4897578934485109743ull, 1, 18052034682448648337ull},
{14101498462144060402ull, 1, 17703781728735044964ull},
{4155493619901214148ull, 1, 14940335166896188772ull},
{3009899370888142979ull, 1, 11942387053456181445ull},
{14625487061663159390ull, 2, 12161071624515134687ull},
{2496966483343441988ull, 2, 13288870074506567669ull},
{6985729284394903784ull, 1, 4743377322719575347ull},
{3302761011998750491ull, 1, 7144407343537879898ull},
{9468421821955516140ull, 2, 10381408024455862133ull},
{8297073589882406898ull, 1, 4450951924501526772ull},
{2288826697858344806ull, 1, 11423002929741901200ull},
{15488796001893202575ull, 1, 4202669095482575332ull},
{5423770720120397428ull, 1, 17882956495630005673ull},
{10466136110717255530ull, 2, 5316725462677722973ull},
{989182488638347717ull, 1, 16963533657890332884ull},
{814700294542150869ull, 1, 4411477002598309542ull},
{11022745707365358638ull, 1, 2677938391245346759ull},
{2247728348329511872ull, 1, 602942394019767893ull},
{11852949131191240811ull, 1, 7509170302370285540ull},
{1533408288710933348ull, 1, 5125202765294441992ull},
{15969346125509689270ull, 1, 9391516091434401481ull},
{3587511438234797285ull, 1, 7379427143026328129ull},
{8972637198048095625ull, 1, 16608361513703056353ull},
{13624042154199854142ull, 1, 12259923779557467580ull},
{7223096257073162348ull, 1, 15310832729242806920ull},
{15638925434603652114ull, 1, 15673593287950832981ull},
{18298796464898457278ull, 1, 15792888742427284778ull},
{15286133582542325688ull, 1, 13154392656674485082ull},
{11700191167079484938ull, 2, 1635033828671687949ull},
{7260968389678547441ull, 1, 12098132585657736878ull},
{11393278131663315458ull, 1, 10896598111033734574ull},
{2593769063615418630ull, 1, 5671280234692471776ull},
{6709149642821589456ull, 1, 4261169680289528461ull},
{11184706672876618981ull, 1, 8963626515825837358ull},
{8906956697822003058ull, 2, 11002585248181883546ull},
{13782772478854037130ull, 1, 15612065375326485820ull},
{11026005637651381394ull, 1, 6627001423152264126ull},
{10096493588351009516ull, 1, 14147451803765949767ull},
{531453213813342053ull, 1, 18403697456907709571ull},
{14877277404311726041ull, 1, 6977978934454112761ull},
{13905415485545284030ull, 1, 6040265569953086080ull},
{15015882308570318532ull, 1, 8019595557899272651ull},
{6638776197516740644ull, 1, 14935917205412005867ull},
{12487131905627037096ull, 1, 7861210126926689445ull},
{8745748716114125141ull, 1, 5621861838392265118ull},
{3723542812976138077ull, 1, 1058354629738517542ull},
{17104285575393122849ull, 1, 2137500230528178757ull},
{9592304297881667269ull, 1, 7423299614132872527ull},
{16931915421268643989ull, 1, 15288760895201014304ull},
{8319766775205504867ull, 2, 11113216224108888733ull},
{8481018355265375119ull, 1, 896356688449324015ull},
{10725286184061656074ull, 1, 15348937195790781565ull},
{1993577600855424776ull, 1, 1794686535038087990ull},
{5798937216312998874ull, 1, 7205506066223339254ull},
{2669466033830112945ull, 1, 6905427468075804002ull},
{13882056435969093171ull, 1, 12132304783038527036ull},
{3370216986017784181ull, 1, 13341497341937053830ull},
{6318027986065475136ull, 1, 15448739993467446139ull},
{9732761717430416425ull, 1, 6151758478167494014ull},
{3977333732614885536ull, 1, 4926556650898591512ull},
{677597088274004800ull, 1, 14662321562836597740ull},
{12359502567699991671ull, 1, 17590894542664053202ull},
{16609699312397593709ull, 1, 15412315586722312434ull},
{313868471190749435ull, 1, 18370980181563678137ull},
{10363842671622140691ull, 1, 13389119212621532238ull},
{10000604098425162558ull, 2, 14616377900543712343ull},
{15201430808825527381ull, 1, 10063304542451092514ull},
{6928336341692477377ull, 1, 10502896503153471143ull},
{2174892352272717280ull, 1, 15598625532466318459ull},
{661580537675583885ull, 1, 12943602753253601453ull},
{5603687231422225870ull, 1, 8271584895040044917ull},
{7909284249592255889ull, 1, 13763675356377979349ull},
{11612711380664140054ull, 1, 13756247895726740614ull},
{4005979113752571336ull, 1, 13418710847073637478ull},
{8335225545853791189ull, 1, 16322480456381553274ull},
{2281441960244429007ull, 1, 2515104094595373198ull},
{18245938703264766365ull, 1, 16962718979250223729ull},
{8079700344073334336ull, 1, 10565702561605438722ull},
{10139153053864559305ull, 1, 5012059330446164790ull},
{15538987686144790257ull, 1, 16142976292505737731ull},
{8087231802371997200ull, 2, 10696895515234150845ull},
{2201151113341540534ull, 1, 4274562303267867869ull},
{959139651918405790ull, 1, 5589642424593768215ull},
{8244434367341672681ull, 1, 12976835983361022519ull},
{9920896842498418945ull, 1, 13660626644807182611ull},
{18251233962955789459ull, 1, 5347659742332292710ull},
{4227904269939063675ull, 1, 2693833428733654337ull},
{17805565060144730983ull, 1, 5350383007291753600ull},
{12025771118641655841ull, 1, 7097881010318436109ull},
{4145778099097708550ull, 2, 15924997744096379909ull},
{4087479142804019304ull, 1, 8911132442842937249ull},
{16284273005409139814ull, 1, 9300631630421892434ull},
{15238169371454779626ull, 1, 13503840738176231010ull},
{4959611811528184848ull, 1, 4119437775549962944ull},
{13809268080390060150ull, 1, 7675806810505540332ull},
{8442414972616460825ull, 1, 17289183436321447006ull},
{5533933527084906233ull, 1, 8661294799645433473ull},
{13888246550934642437ull, 1, 12077578930160765470ull},
{9495826897663908339ull, 1, 1675725991208796ull},
{9926354853030589106ull, 1, 12779423720073590877ull},
{1564620548154972712ull, 1, 11869265004938313455ull},
{15827792897411153519ull, 1, 2768768838401824167ull},
{6585396440007599024ull, 1, 13284921848079266003ull},
{16450611917126242249ull, 1, 16434491781336928813ull},
{14893573814435149468ull, 1, 12238513900796226267ull},
{3476432310059556852ull, 1, 4353664472277917638ull},
{14391334320218808979ull, 1, 6393228424009278717ull},
{8197789300439911088ull, 1, 9687251155568271424ull},
{8562149645678932920ull, 1, 13424960971000853494ull},
{9918036523546787595ull, 1, 1425753625798294916ull},
{5498079858765379445ull, 1, 519948685313711877ull},
{17028314427161885731ull, 1, 17300087823127786976ull},
{7998281937897344877ull, 1, 9291564082561320330ull},
{1995794402891118024ull, 1, 14055534687469638818ull},
{8562455946599301629ull, 1, 12970488834231677425ull},
{2119563229485670020ull, 1, 3596292524583637348ull},
{10539319241232332730ull, 1, 13965804045374797951ull},
{14861767129668273915ull, 1, 4691389975971149887ull},
{5707858505759723297ull, 1, 15405698845944334720ull},
{16437790466884530595ull, 1, 1145422666361434085ull},
{1483982287621852469ull, 1, 9181371245413249293ull},
{6916971891177164877ull, 1, 2725328187074023694ull},
{13848156931426066511ull, 1, 13356134600221184428ull},
{15451045274065990927ull, 1, 11167609593521753294ull},
{14231089169649218001ull, 1, 11201423419918309715ull},
{14070913126955388517ull, 1, 12237323425424171697ull},
{15615408380840540802ull, 1, 5296388371962163836ull},
{16147551956677237359ull, 1, 16945986313190369056ull},
{10763695476938392435ull, 1, 13255153534770313233ull},
{14499742187510089319ull, 1, 3515614837961380665ull},
{1202289503298010697ull, 1, 6628309812477668664ull},
{17989104985363138157ull, 1, 967504650782147461ull},
{14023303952068420502ull, 1, 2187756267534125902ull},
{16937762424040416213ull, 1, 7214431114046594328ull},
{5536375980443614793ull, 1, 17708918912699874091ull},
{15958009786699290929ull, 1, 16818328561414286721ull},
{7048854658445681389ull, 1, 3737353744968224488ull},
{17829333389153213316ull, 1, 3379638046304104903ull},
{9190365518953704980ull, 1, 15466394491149464373ull},
{980485533802252165ull, 1, 6246383861483197795ull},
{12371731784253121905ull, 1, 1576807289103604710ull},
{10555047500909339247ull, 1, 1011215835962648148ull},
{7963765041707232692ull, 1, 6664556353515077936ull},
{2855167796524232656ull, 1, 895700130364522961ull},
{12925461707777059556ull, 1, 2750988600294050366ull},
{16280268649120384964ull, 2, 9000789518151908829ull},
{1854487947787152967ull, 1, 18274574947516233117ull},
{9116047610196115394ull, 2, 16221190036911126525ull},
{13710700570961491573ull, 1, 16674055925693124330ull},
{6688895317909379422ull, 1, 17905950447616311068ull},
{12476454112972169577ull, 2, 8736665021384835759ull},
{3466983388381772218ull, 1, 15735163633607843955ull},
{15882834919142644256ull, 1, 9807154452184434745ull},
{6680737361202607133ull, 1, 13070670305363645965ull},
{6848065485023762632ull, 1, 12034306094497694257ull},
{13366306209202886590ull, 1, 4367925472473690895ull},
{8540559814474618615ull, 1, 1832586098667840999ull},
{16700016100018448928ull, 1, 17432553145421013482ull},
{4746763706227565961ull, 1, 7096309733125898209ull},
{4869743863566813689ull, 1, 10264866562599066655ull},
{4660340659558321753ull, 1, 849464759159664724ull},
{15699314195627178737ull, 1, 14682809224808256585ull},
{4291903922209052203ull, 1, 4610005518070621209ull},
{9468010790936066940ull, 1, 6714041569140641739ull},
{12500411907506499037ull, 1, 1203878714624633047ull},
{14408212047080699163ull, 2, 8198832245389030157ull},
{12308360504046890467ull, 1, 13175667142947523877ull},
{8275926480975249192ull, 1, 15447710423463525093ull},
{13864997080387405855ull, 2, 15295403493992271877ull},
{1069132035023383612ull, 2, 12454477875102889357ull},
{4077727999457225467ull, 1, 15084265302898419098ull},
{8871780031690509218ull, 1, 4462188196599253575ull},
{17760945518227133926ull, 1, 8969159430132219967ull},
{8670824468953120074ull, 1, 9333447846767759135ull},
{9152693152007753936ull, 1, 15368716326116190893ull},
{1350050030589952631ull, 1, 896991446995630742ull},
{3049804772416641725ull, 1, 15254226516804790819ull},
{4048072149882612980ull, 1, 618030346051582956ull},
{10406452621828455214ull, 1, 1597027912089296624ull},
{8798820735464953099ull, 1, 14029597348097835012ull},
{12237359398205586122ull, 1, 12238109841368206154ull},
{11902248680160006075ull, 1, 15218588185256668740ull},
{2722612519351846724ull, 1, 2622115667531830860ull},
{4993965203190900474ull, 1, 1082538137521420485ull},
{15147794563527195426ull, 1, 6208369248813519604ull},
{10951941247716135556ull, 1, 2594795865263470577ull},
{2164764915803919239ull, 2, 14121680306796644749ull},
{14404952740782174350ull, 1, 2288151701918878862ull},
{1918692092520746314ull, 1, 5515142421915900986ull},
{8221175679961370062ull, 1, 12708713263371221077ull},
{15888433327539374559ull, 1, 5267915110596763902ull},
{2144441967582781568ull, 1, 10508854107243192889ull},
{1153830609555334167ull, 2, 18133152384885782242ull},
{625752394401413987ull, 2, 2947485423112724591ull},
{15462876875699415889ull, 1, 9985359380334052640ull},
{157337561704783095ull, 1, 12233091660263947204ull},
{5680734117334756072ull, 1, 6881441823703079917ull},
{6819449726882405192ull, 1, 14933382581318437867ull},
{3967605662687673259ull, 2, 15383844910128120805ull},
{16276177029187895460ull, 2, 5560759206643049059ull},
{6996725750838099800ull, 1, 5494294498454142205ull},
{12318965186261985893ull, 2, 10072466540414484813ull},
{12583834292357847369ull, 1, 13303885296588944074ull},
{4343522515249718772ull, 1, 7065876561745770376ull},
{12981299829514839395ull, 1, 11446699156190959129ull},
{17793610666459258736ull, 1, 12708488551478334400ull},
{10288636171382378045ull, 1, 8624713641447519092ull},
{11368619443771861194ull, 1, 12395040903346780967ull},
{11917454441726762594ull, 2, 11621667642812812277ull},
{10149565946945458223ull, 1, 4631771045695967981ull},
{3348816159395868308ull, 1, 5864024503298001807ull},
{17520208931428172108ull, 1, 9042634142805864385ull},
{2946022405870478622ull, 1, 6377160887484482203ull},
{7470293484396619282ull, 1, 13354540878637458943ull},
{7036304414561351718ull, 2, 7069462589691080367ull},
{10284440061962830913ull, 2, 12453458255444484987ull},
{6499496850802084094ull, 1, 4378639034470556728ull},
{11212475931383321501ull, 2, 5697193701963289797ull},
{15095523225627475641ull, 1, 12667210124014381055ull},
{3096102429598257342ull, 2, 10524743667069659359ull},
{211607275703557546ull, 1, 16411025029956815921ull},
{2384781543742866250ull, 1, 18013144542476172249ull},
{11064590710499544074ull, 1, 3399032246123747968ull},
{1634353388359094448ull, 1, 2792106211140996038ull},
{1343019677036311989ull, 2, 10668397882812616703ull},
{10072585197327223795ull, 2, 7981349297193698125ull},
{11768526285216600186ull, 1, 9232214693234217284ull},
{9034718040163708542ull, 1, 691555223300342645ull},
{18176320718259730885ull, 1, 4163329704938588759ull},
{5579107387269839181ull, 1, 6164338003172570774ull},
{9310067079897849108ull, 1, 661298420115033997ull},
{4966437719134152550ull, 2, 17693310823648195967ull},
{16013934471616368069ull, 1, 9623052605198726499ull},
{8391430567297463125ull, 1, 8838548770415620070ull},
{5242513461242928353ull, 1, 9072900902685233270ull},
{1741759566686203457ull, 1, 2240581365404063325ull},
{17487739522058928211ull, 2, 18319299095117147199ull},
{1530202192317442627ull, 1, 9702067157344288072ull},
{9358956435262597032ull, 1, 13342393801369836443ull},
{17529037031635631860ull, 1, 6582421554626688952ull},
{14356758326837269956ull, 1, 9434135469711746684ull},
{13720230302554028899ull, 1, 10811620333913789781ull},
{8348588185902704657ull, 1, 5259499524363173604ull},
{18072800205307664452ull, 1, 11585928093208153859ull},
{17228235172488629878ull, 1, 5488300306701247152ull},
{15996037055720591526ull, 1, 6355752326333785330ull},
{15316363206796693997ull, 1, 7099497816917721355ull},
{7080397539755685303ull, 1, 8507672723863671369ull},
{6273911300767205174ull, 1, 16331553791034255205ull},
{10344931322973431894ull, 1, 1122253777459276717ull},
{15919815169275472928ull, 1, 3396439985364476721ull},
{17367239130188311701ull, 1, 926482868162790250ull},
{1144255596745091219ull, 1, 4316481608346973946ull},
{18194841502360760152ull, 1, 13069842361879204822ull},
{10572383051791638344ull, 1, 10704013360773425667ull},
{15814664498444248140ull, 1, 12951207338648439897ull},
{4940631734985853448ull, 1, 7990382854291089170ull},
{6310819136172697376ull, 1, 13761901866509961697ull},
{256857878512831163ull, 1, 12450597563074197379ull},
{12838834869041927317ull, 1, 5317363724308996744ull},
{9892294416281811855ull, 1, 2069174793701140280ull},
{5730162626973852458ull, 1, 13334440930644927491ull},
{12504066399949062103ull, 1, 9932782991272233104ull},
{15903439601185430583ull, 1, 2635039497037828946ull},
{7736151687288190023ull, 1, 1153525882266444183ull},
{16804652004175129145ull, 1, 3563069853950298927ull},
{10916537480411807801ull, 1, 13989353620796215997ull},
{14649206540374306512ull, 1, 12359909022405658222ull},
{14401975360797791043ull, 1, 17046972392545799297ull},
{14798351190666026861ull, 1, 2094053273017893495ull},
{5885219352597427393ull, 1, 10436408947448982617ull},
{462999334349513572ull, 2, 5918099367323745717ull},
{11713801954849066012ull, 2, 14580272900148722215ull},
{2743002213260151785ull, 1, 7153392879649867520ull},
{2492567752409866377ull, 1, 4240958415294294809ull},
{205986870400356992ull, 1, 693428458319387507ull},
{15059430868693630578ull, 1, 4184147861276281131ull},
{10583778740414270475ull, 1, 2148569111535822355ull},
{10673650712747759839ull, 1, 16147034459099383535ull},
{5374411743429493326ull, 1, 42639500592060138ull},
{5413192006001789767ull, 1, 3139302696161711668ull},
{14551381037400605129ull, 1, 12464715148738100275ull},
{1839166637820480090ull, 1, 6870749634915885323ull},
{7736495165866168561ull, 1, 2697223249664058329ull},
{16820713654264563226ull, 1, 11591946534990776977ull},
{8326443277128277712ull, 1, 5447719871932111702ull},
{12988339313499433581ull, 1, 11226662277829502729ull},
{10869611068792962291ull, 2, 7954591034809281773ull},
{6001035065377733273ull, 1, 10851806239294265633ull},
{5065395403018713166ull, 1, 7032108554912995779ull},
{6220945083645646229ull, 1, 4025164400393919188ull},
{8088184747593293186ull, 1, 3693819766110998560ull},
{10166563951042503578ull, 1, 6241568911137998477ull},
{12363703507666103642ull, 1, 7067433391777619736ull},
{13586546367655063495ull, 1, 15155591527323838371ull},
{17544175598208365465ull, 1, 14411371307518057215ull},
{1996649422250028341ull, 1, 13248517878210813255ull},
{5534078035245980767ull, 1, 8324904978149492581ull},
{3639098377514817561ull, 1, 11545115922948051774ull},
{3935806842018568562ull, 1, 6308599268925019279ull},
{9954132446772532429ull, 1, 12359491372291732295ull},
{13750276773722455471ull, 1, 3312803172705122883ull},
{13800054297906447006ull, 1, 16800997511690136862ull},
{17630164568258063910ull, 1, 9212576507830671734ull},
{11552998523412565295ull, 1, 15155258732066698322ull},
{8677822381686600778ull, 1, 16034041942751506185ull},
{5131475808529672473ull, 2, 1365085388304998477ull},
{14039453563406705921ull, 1, 5845493708753200016ull},
{16643369203375545690ull, 2, 14591853894450885183ull},
{18070686709735179641ull, 1, 9199636381002989425ull},
{1561399506275208373ull, 1, 1161174799703604210ull},
{12946880401314602235ull, 1, 16303534404240510136ull},
{8200762621028205827ull, 1, 1242927493186357608ull},
{14929399673309901582ull, 1, 17889922739081598808ull},
{12062451475584528801ull, 1, 16314581739770419006ull},
{10403819785163350772ull, 1, 5728067497597127614ull},
{2972060366070108978ull, 1, 4595314729115614978ull},
{12122764438954113873ull, 1, 2921023277885240500ull},
{12465546193438341128ull, 1, 2840513711707986505ull},
{9460402483613104560ull, 1, 6304885409503777323ull},
{10972705988016230184ull, 1, 13695972216013357505ull},
{18419528799790657853ull, 2, 1290264017698957209ull},
{11599852321451435868ull, 2, 8165396911205395573ull},
{13519232011287048311ull, 2, 8757826970692616183ull},
{12760158220009216274ull, 1, 11245168819281050957ull},
{8944327698938507299ull, 1, 17222732043533421763ull},
{4935256690537219221ull, 1, 16148560768531432932ull},
{12051598593817823674ull, 1, 12777490150109220244ull},
{16603876638313656433ull, 1, 9740676806527347835ull},
{5710306109156907448ull, 1, 320735614799907561ull},
{12982259256301715355ull, 1, 12517402766911013424ull},
{11267685615464779145ull, 1, 5926801768159789628ull},
{13059552328955779608ull, 1, 513379251121787601ull},
{16639622462163552260ull, 1, 2070683391053576167ull},
{2091768751508680161ull, 1, 14018713304589444919ull},
{12893706135767955924ull, 1, 11791493122154534081ull},
{9058809489806361905ull, 1, 17408544663003475909ull},
{5215064197502149815ull, 1, 2258840807631391319ull},
{7717534370263175344ull, 1, 3591920896411660177ull},
{6868401699580044014ull, 1, 12971058458839801427ull},
{18175109554186697217ull, 1, 2924786623853838381ull},
{1043908381346115945ull, 1, 13903644188035894702ull},
{10851000773664081364ull, 1, 13722172217021139327ull},
{775584315356345236ull, 2, 477750867125479805ull},
{16273209839572906751ull, 1, 9169271935551055557ull},
{12272835504817527116ull, 1, 16989874613279402004ull},
{7848806868296240571ull, 1, 8295161761732897038ull},
{5527699045595151905ull, 2, 3189767824739883191ull},
{6040763676438672016ull, 1, 974987526239137219ull},
{8347531757159984344ull, 1, 11421617561939791493ull},
{11112229382041828761ull, 1, 2392410906361163444ull},
{723342748952701314ull, 1, 7985803713925266113ull},
{17882013975499049680ull, 1, 18044836706286160276ull},
{10793617112255307750ull, 1, 14346987463216853687ull},
{1232284227805315201ull, 1, 14859576109564842775ull},
{11149556500899662478ull, 2, 10459577864552159271ull},
{14955691866864947744ull, 1, 6791505397210593427ull},
{9304634606520075603ull, 1, 15102210443413661573ull},
{3079846789175035633ull, 1, 10934664885608530086ull},
{1525896495866815748ull, 1, 6717811222188123878ull},
{15117035005709791882ull, 1, 3194183294854503330ull},
{10613549212163377057ull, 1, 12244579769221325735ull},
{18432023745015020953ull, 1, 13900665432052298542ull},
{15059483019715343265ull, 1, 17534334715615215336ull},
{11051106791185748539ull, 1, 13506140083827573381ull},
{5128786203183380720ull, 1, 10405039770647186505ull},
{9622865474583667335ull, 1, 4691690859584988507ull},
{1489618902964361134ull, 1, 9213825873439172648ull},
{17941125139954546776ull, 1, 9967962871723535521ull},
{1628746448437147894ull, 1, 9645221655553654382ull},
{303871386228562239ull, 1, 10687059035392810784ull},
{5180537862360676021ull, 1, 2295566833804796947ull},
{13224217903882156436ull, 1, 12168129040409210725ull},
{3882691709501760575ull, 1, 3686762041591093578ull},
{17122555642064068712ull, 1, 17802740097911123943ull},
{15322376191582408349ull, 1, 3917209965844002695ull},
{5498851150744354654ull, 1, 15598827012234766609ull},
{12395867854538408388ull, 1, 14376912345451791848ull},
{5198530059349681257ull, 1, 13123779337809951408ull},
{16490590615921495735ull, 1, 16928307524174294700ull},
{18097584691870687203ull, 1, 6211178129260960712ull},
{17132246207728548771ull, 1, 7625169384016855352ull},
{4588517882753977288ull, 1, 14288380559969804010ull},
{1421418065694869414ull, 1, 2458784409080782393ull},
{1344930310512810677ull, 1, 6361301562244920359ull},
{8368547891852840441ull, 2, 10566876069873489261ull},
{10275648179281006779ull, 1, 8235963326667522188ull},
{12186149191879084847ull, 1, 5343609862597750158ull},
{6590765715457283523ull, 1, 16715075329344423044ull},
{11170948774660078271ull, 1, 5651558625468424524ull},
{6643303099763068028ull, 1, 14313754233109432621ull},
{517525032834335783ull, 1, 16921097726541402837ull},
{12604935932212956347ull, 1, 15154708890552134141ull},
{11981605398378244203ull, 1, 11066954510862550636ull},
{9379575351502626537ull, 1, 8677827552952372144ull},
{11073939513834470325ull, 1, 6534450352662483060ull},
{13986958845780037174ull, 2, 13158918747516343269ull},
{3333202476977282703ull, 1, 3104805511079034047ull},
{422058602855127096ull, 1, 6469660275650302030ull},
{9817905512655280935ull, 1, 398669420036814907ull},
{11333264088450301338ull, 1, 11924971012893413044ull},
{7455954439615215557ull, 1, 10149131312960613475ull},
{2114273827487848078ull, 1, 16627685455191593932ull},
{6964573031617464970ull, 1, 3918442826273775374ull},
{14978218617071255835ull, 1, 5984292831833716259ull},
{10707822140111367049ull, 1, 103433357891913723ull},
{376758942082530551ull, 1, 17195147459287058164ull},
{7098950441882832689ull, 1, 12938359290313229967ull},
{3534814831827582357ull, 2, 6345021339748222797ull},
{11759745956909993695ull, 2, 10032597378861460869ull},
{14459724702307849306ull, 1, 1723312205125563071ull},
{7281151187716880566ull, 1, 15458936054926445457ull},
{14339572940626497764ull, 1, 16251380478121619908ull},
{750970841449369690ull, 1, 7693507160121292670ull},
{3379664850780412674ull, 1, 9301980682482846465ull},
{4862477967287071706ull, 1, 11991495314489128358ull},
{6542499412074468160ull, 1, 4668097509905030089ull},
{1980609682266664342ull, 1, 2736115043480976924ull},
{3250864382550202727ull, 1, 16918304165520548966ull},
{1553348321155852687ull, 1, 15646684260853088533ull},
{2567566650702021269ull, 1, 7217921174383049925ull},
{8839857181472239246ull, 1, 505992168940331851ull},
{9204116856965896963ull, 1, 11091445907768408531ull},
{6452110790532487333ull, 1, 12198323105889714961ull},
{13372069778245911040ull, 1, 16578256567896106300ull},
{3073788102185279730ull, 1, 2894970347167627200ull},
{13953469835028060703ull, 1, 8449326857074870532ull},
{2503006310220576099ull, 1, 4903939686470524405ull},
{15905519157142485434ull, 1, 7419245463501613839ull},
{13047772484305244251ull, 1, 12970477542887840811ull},
{7443351793148621632ull, 1, 3842921309069016741ull},
{15231234495180872261ull, 1, 17481566260682476321ull},
{16915749724469794655ull, 1, 14357353493715554162ull},
{7549675484193275517ull, 1, 6784038263222447821ull},
{12604238769801212488ull, 1, 12611967437529246749ull},
{15013671239774582445ull, 1, 2669237965308587681ull},
{1336783467122994432ull, 1, 14164127697545570750ull},
{15077071683582477285ull, 1, 17148799732297251270ull},
{16320160395423956960ull, 1, 9812996268505616714ull},
{12596359594961415422ull, 1, 7163181483767926700ull},
{16224387336550699321ull, 1, 3614418556683812647ull},
{15274917026870383119ull, 1, 8194483144185487419ull},
{5813278291291841040ull, 1, 16820425891576935779ull},
{14853012925855820646ull, 1, 12727827219788698806ull},
{8077748298695650397ull, 1, 3736056915260167087ull},
{11288241812661150905ull, 1, 6765328355727489291ull},
{11941389444016261259ull, 1, 11029218226920321465ull},
{9544855871071692862ull, 1, 3669554241728324362ull},
{13306231115020324156ull, 1, 13655724381852135054ull},
{17269347896391847246ull, 1, 14847606160622114055ull},
{17419782788631088643ull, 1, 12197444109973175954ull},
{2324182394688450130ull, 1, 1863885784593162436ull},
{18351742335950670691ull, 1, 13165405690242521282ull},
{14369345593320945825ull, 1, 16066945709207210855ull},
{5067237509218471309ull, 1, 6235708361927888412ull},
{6855063796375369537ull, 1, 18134355647192437282ull},
{13437808598458193339ull, 1, 12441404642071343121ull},
{9737107406189861897ull, 1, 17932405210368331150ull},
{16281412316592724715ull, 1, 11897077902102602853ull},
{47958814355941559ull, 1, 12569037658225782613ull},
{7324450075278755008ull, 1, 5469342497565698178ull},
{8186916415327778795ull, 1, 3008138270919907366ull},
{11549415023078731534ull, 2, 2378767299197394877ull},
{2193080434494878891ull, 1, 5518431871741837190ull},
{3888367022710863568ull, 1, 7486490537917773105ull},
{12782554502909142711ull, 1, 7897851060605099438ull},
{18261711171756827782ull, 1, 17205002851125915290ull},
{18442178921992035633ull, 1, 14027064056908922856ull},
{9975194362509168848ull, 1, 15852580563677590595ull},
{17172191848152283508ull, 2, 1782154824273525913ull},
{17039214189937475032ull, 1, 12061315410189870642ull},
{10264991734544133859ull, 1, 3398482782039934022ull},
{1171927489670414230ull, 2, 2808487284829181547ull},
{4379442980683832768ull, 1, 12964382974424907818ull},
{5313283866503480640ull, 2, 10425029402386371575ull},
{11258324487512423971ull, 1, 10156836316331047218ull},
{698454515782685857ull, 1, 10184074971773630342ull},
{11483194403873211434ull, 1, 2428986408983458394ull},
{6180791610867725072ull, 1, 12219504254888342784ull},
{12557850827934172979ull, 1, 11201212704217537384ull},
{17017287962530270066ull, 1, 6407969831526229398ull},
{18434601397541917582ull, 2, 5882917810788549487ull},
{8296695670093236027ull, 1, 2094229718558909835ull},
{3898185462208779113ull, 1, 3957499933462443606ull},
{1481897849175174193ull, 1, 2172369568474875069ull},
{12511098447570314436ull, 1, 10438235734911606065ull},
{4510291481856263206ull, 1, 7581329609116791880ull},
{2491617500021160185ull, 1, 2060703003440966393ull},
{13084559609603318014ull, 1, 18288468534639818900ull},
{18155561938395124383ull, 1, 15840900310742799234ull},
{8801810929199218794ull, 1, 15354524465663039163ull},
{6790923504481520721ull, 1, 1208388416193498980ull},
{2147646996634651620ull, 1, 8874226221861819282ull},
{4608020648607071302ull, 1, 3605420705042570849ull},
{15507639999441931009ull, 2, 4056104653202706829ull},
{11932428496189746232ull, 1, 10122701570646062937ull},
{18274453560409600658ull, 1, 5274995389526977544ull},
{9321844693290277861ull, 1, 11034747539628778948ull},
{5421382514905874372ull, 1, 3967831886669004577ull},
{9024537070149787480ull, 1, 7531051443131021154ull},
{7053145036320479404ull, 1, 4536725021054435490ull},
{17051288616861010982ull, 1, 2322257125588548381ull},
{2907960721019651676ull, 1, 14683615878778631696ull},
{7526986373592529050ull, 1, 5533815708751788305ull},
{15874135249688581534ull, 1, 6182032140345109528ull},
{13764740827658271696ull, 1, 15104045282161583416ull},
{1823770633640177600ull, 1, 10804730300232282965ull},
{11479551594851826054ull, 1, 233895291243441493ull},
{15511489956112409618ull, 1, 12751787159674708420ull},
{13701460325376568079ull, 1, 16080808740627433597ull},
{1709524426792059729ull, 1, 14272691290812221102ull},
{5876986335793042848ull, 1, 3303041799947266434ull},
{3081652006473343536ull, 1, 14546568453445182046ull},
{13790614006796342883ull, 1, 8636291702123550152ull},
{16252373947099413833ull, 1, 1088484819403739540ull},
{14124886878672613423ull, 1, 13869411468442977323ull},
{8414200572241026483ull, 1, 8434008425100126546ull},
{10620295455120800808ull, 1, 9118479467894923769ull},
{70570194976285078ull, 1, 6690033481499532287ull},
{2235423816408676778ull, 1, 13211485098193744105ull},
{1821337538004014642ull, 1, 12720509792309338802ull},
{9154353758551523638ull, 1, 11266868104081877103ull},
{4278456128986903619ull, 1, 18429279956521606105ull},
{10102752849252691516ull, 1, 16037330143339318773ull},
{11942035737913972266ull, 1, 16874023143118704549ull},
{7338818420152083161ull, 1, 10773301265893518756ull},
{9567936458201851921ull, 2, 7458869438486990239ull},
{1524286366850341931ull, 1, 5057089140731564066ull},
{2388562291560558002ull, 1, 8538190064270647733ull},
{3502912176865495363ull, 1, 14667749939746335848ull},
{1457525604075419690ull, 1, 9889774191578494611ull},
{6136953897013198709ull, 1, 11236410005918841195ull},
{9829041532818769734ull, 1, 6696208391436596474ull},
{16116147237612126314ull, 1, 16177591018831717020ull},
{14507802545227372649ull, 1, 12455403797416726135ull},
{17114410906449791112ull, 1, 1785203543575203343ull},
{6342724984784548177ull, 1, 9322181627982803138ull},
{15724343968101454767ull, 1, 7388580688983556071ull},
{6855141805698117779ull, 1, 8588565511654238161ull},
{13722384285717840308ull, 1, 18220010317953896985ull},
{1387706502274973804ull, 1, 7246656523162608552ull},
{13983190716433505939ull, 1, 6045558649899795670ull},
{14166418508065171245ull, 1, 7580811254108336514ull},
{2462920531631515154ull, 1, 16214991745304024323ull},
{3336749750071028283ull, 1, 13787506915038853887ull},
{18276579995928628599ull, 1, 6842888967598341166ull},
{14647749504126187898ull, 1, 13462581143159424975ull},
{7433821531786618559ull, 1, 10517269872673959083ull},
{1997668041925949992ull, 1, 4217213565226014888ull},
{89288058017927587ull, 1, 4638513794813846750ull},
{4578395823674833553ull, 1, 10627706434517832603ull},
{14632050730185427170ull, 1, 4270157488470603430ull},
{14164284535172914684ull, 1, 16249576365159156962ull},
{475112890832186204ull, 1, 1232709766341282953ull},
{18358319330268451344ull, 1, 3953166305787980640ull},
{5358241830872329679ull, 1, 2111555317894589572ull},
{3504122249663757463ull, 1, 7733229338464907124ull},
{4236170985948142526ull, 1, 15984905772054200292ull},

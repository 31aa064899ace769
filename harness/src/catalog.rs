// Generated by tools/mkcatalog.py. Macro-built collections of every kind with the entries they were written from.
use frozen_collections as fz;
use vh::facade::*;
macro_rules! m {
    ($v:ident, $mac:ident; $($k:tt => $x:tt),*) => { $v.push((Box::new(fz::$mac!({ $($k: $x,)* })) as BMap<_>, vec![$(($k, $x)),*])) };
}
macro_rules! s {
    ($v:ident, $mac:ident; $($k:tt),*) => { $v.push((Box::new(fz::$mac!({ $($k,)* })) as BSet<_>, vec![$($k),*])) };
}
macro_rules! mx {
    ($v:ident, $mac:ident; $($k:expr => $x:tt),*) => { $v.push((Box::new(fz::$mac!({ $(std::hint::black_box($k): $x,)* })) as BMap<_>, vec![$(($k, $x)),*])) };
}
macro_rules! sx {
    ($v:ident, $mac:ident; $($k:expr),*) => { $v.push((Box::new(fz::$mac!({ $(std::hint::black_box($k),)* })) as BSet<_>, vec![$($k),*])) };
}
type St = &'static str;
#[allow(dead_code)]
pub fn int_maps() -> Vec<(BMap<i64>, Vec<(i64, V)>)> {
    let mut v: Vec<(BMap<i64>, Vec<(i64, V)>)> = vec![];
    m!(v, fz_hash_map; 48394705062i64 => 590893858u64);
    m!(v, fz_hash_map; 17i64 => 129303304u64, 18i64 => 652744133u64);
    m!(v, fz_hash_map; 628551306876i64 => 784280298u64, 255202547646i64 => 302628244u64, 485486346855i64 => 25299714u64);
    m!(v, fz_hash_map; 3903098880i64 => 932565979u64, 2839515136i64 => 46145853u64, 2539036672i64 => 326462075u64, 3804573696i64 => 573315449u64);
    m!(v, fz_hash_map; 525174580560i64 => 527559407u64, 428124396562i64 => 124687894u64, 85009552684i64 => 316292209u64, 612478648068i64 => 758436074u64, 793102246279i64 => 146097702u64);
    m!(v, fz_hash_map; 10i64 => 364849571u64, 8i64 => 644207866u64, 11i64 => 343876690u64, 7i64 => 728254373u64, 12i64 => 711390605u64, 6i64 => 695332529u64, 9i64 => 544116782u64);
    m!(v, fz_hash_map; 40425113693i64 => 205319487u64, 552762887620i64 => 765277763u64, 726505647103i64 => 80294041u64, 172748965563i64 => 69384840u64, 611650782855i64 => 370386733u64, 5936440427i64 => 30022564u64, 672876258085i64 => 218722225u64, 58218688602i64 => 518777343u64);
    m!(v, fz_hash_map; 34i64 => 532313601u64, 10i64 => 937720082u64, 23i64 => 743254684u64, 32i64 => 403776405u64, 9i64 => 851897734u64, 2i64 => 829188394u64, 41i64 => 521193667u64, 39i64 => 736001696u64, 15i64 => 839717671u64, 33i64 => 470733039u64, 45i64 => 20038783u64, 12i64 => 303470704u64, 43i64 => 135464703u64, 29i64 => 284183254u64, 14i64 => 845339683u64);
    m!(v, fz_hash_map; 752901830140i64 => 416979038u64, 239220896043i64 => 202622274u64, 946307522315i64 => 103470068u64, 331851636675i64 => 681192356u64, 640438235522i64 => 618318479u64, 687462996471i64 => 302195275u64, 158122333356i64 => 721371651u64, 920353635796i64 => 349764859u64, 92957926637i64 => 246140143u64, 32479124041i64 => 497357343u64, 247423581929i64 => 34182060u64, 386197210321i64 => 171660915u64, 612025375212i64 => 176245441u64, 706771231231i64 => 429278000u64, 300176758938i64 => 266860711u64, 830702649145i64 => 619264406u64);
    m!(v, fz_hash_map; 1517432832i64 => 686580044u64, 591380480i64 => 150101369u64, 557690880i64 => 591782947u64, 2846048256i64 => 750142747u64, 2723442688i64 => 769262754u64, 2586898432i64 => 866093027u64, 963850240i64 => 603291232u64, 2827943936i64 => 978288245u64, 3652640768i64 => 206420504u64, 1110601728i64 => 34683665u64, 2522341376i64 => 656003559u64, 2299949056i64 => 641275448u64, 2111176704i64 => 884155060u64, 3706200064i64 => 204305201u64, 282869760i64 => 647918922u64, 3022139392i64 => 927790528u64, 2172100608i64 => 749719257u64, 3035648000i64 => 394034098u64, 1783775232i64 => 371205644u64, 1542475776i64 => 488071698u64, 3222663168i64 => 651723344u64, 3416092672i64 => 111503863u64, 4009095168i64 => 99022224u64, 1937489920i64 => 467176637u64, 2439053312i64 => 556003033u64, 1204383744i64 => 110805086u64, 1963491328i64 => 270873188u64, 1849278464i64 => 616599884u64, 427528192i64 => 922160731u64, 3791945728i64 => 173359202u64, 1045852160i64 => 33265671u64, 14249984i64 => 455297038u64, 1639731200i64 => 465810621u64);
    m!(v, fz_ordered_map; 685253427101i64 => 348133796u64);
    m!(v, fz_ordered_map; 14i64 => 305174247u64, 15i64 => 778348042u64);
    m!(v, fz_ordered_map; 169793502662i64 => 959308912u64, 65726650715i64 => 578534882u64, 456095402743i64 => 634638829u64);
    m!(v, fz_ordered_map; 3538849792i64 => 530764116u64, 1750847488i64 => 519081468u64, 539361280i64 => 538107041u64, 2149208064i64 => 827935705u64);
    m!(v, fz_ordered_map; 277066563000i64 => 534118335u64, 28002747915i64 => 221955601u64, 637721833040i64 => 171460241u64, 483328929379i64 => 390737277u64, 688344541457i64 => 18872490u64);
    m!(v, fz_ordered_map; 2i64 => 719464187u64, 7i64 => 185307367u64, 4i64 => 673237139u64, 3i64 => 980146767u64, 6i64 => 445544110u64, 5i64 => 690193093u64, 1i64 => 559995558u64);
    m!(v, fz_ordered_map; 451434448830i64 => 773731256u64, 288184992835i64 => 563088617u64, 814700849266i64 => 311311051u64, 131109622503i64 => 225092304u64, 816151439937i64 => 453506185u64, 423319741894i64 => 33642787u64, 58515720677i64 => 42449128u64, 717313666772i64 => 523821600u64);
    m!(v, fz_ordered_map; 33i64 => 727753901u64, 27i64 => 177906436u64, 32i64 => 313046508u64, 45i64 => 289108856u64, 43i64 => 47468987u64, 15i64 => 993737286u64, 7i64 => 577187038u64, 28i64 => 757155562u64, 24i64 => 927449267u64, 39i64 => 40798544u64, 37i64 => 610883847u64, 6i64 => 276702079u64, 17i64 => 29624287u64, 40i64 => 82659647u64, 42i64 => 426319537u64);
    m!(v, fz_ordered_map; 146010098172i64 => 594236036u64, 221901606053i64 => 231667629u64, 759425573593i64 => 329251189u64, 39063611554i64 => 584575329u64, 494398758521i64 => 841830682u64, 82910167198i64 => 104352129u64, 91678726836i64 => 30299579u64, 517270981744i64 => 773151198u64, 581437717623i64 => 891135374u64, 225479508353i64 => 277703938u64, 645992841358i64 => 613449040u64, 732947751658i64 => 384018376u64, 85629854398i64 => 294809833u64, 262903365785i64 => 460450180u64, 734404130915i64 => 662879441u64, 778515466805i64 => 964618472u64);
    m!(v, fz_ordered_map; 3433357312i64 => 632975219u64, 623161344i64 => 8203302u64, 3939586048i64 => 339904209u64, 1683705856i64 => 415624658u64, 3576692736i64 => 515692385u64, 2320224256i64 => 948208888u64, 187813888i64 => 122621784u64, 2404089856i64 => 105810355u64, 1275596800i64 => 481504892u64, 2714034176i64 => 225618844u64, 735207424i64 => 604740252u64, 3967156224i64 => 126008663u64, 2251669504i64 => 553540785u64, 1929580544i64 => 603134575u64, 395186176i64 => 471159919u64, 2832916480i64 => 132143421u64, 3153965056i64 => 398572368u64, 3220074496i64 => 67177878u64, 3608514560i64 => 891022012u64, 1850343424i64 => 500619404u64, 3800502272i64 => 259966454u64, 1567277056i64 => 372517300u64, 3831816192i64 => 33387552u64, 1853231104i64 => 775720896u64, 4061507584i64 => 798483813u64, 550744064i64 => 377547560u64, 2215608320i64 => 377262569u64, 47124480i64 => 634865975u64, 2300702720i64 => 40664242u64, 2296328192i64 => 827097815u64, 147767296i64 => 295537007u64, 1432834048i64 => 949346943u64, 2043023360i64 => 428787725u64);
    m!(v, fz_hash_map; 747393128754i64 => 681975749u64, 61839606519i64 => 905585544u64, 898433474419i64 => 520951389u64, 960400319296i64 => 270279410u64, 629873228529i64 => 280998768u64, 185302303909i64 => 53826605u64, 943218017340i64 => 839001959u64, 527085980786i64 => 165831916u64, 331022690990i64 => 526258367u64, 276207590869i64 => 339320653u64, 839199330081i64 => 525708648u64, 23816880202i64 => 976684807u64, 528406243088i64 => 760941232u64, 148860449082i64 => 419005049u64, 511215117918i64 => 515329718u64, 830527481417i64 => 114305703u64, 953454381513i64 => 706263750u64, 128903438696i64 => 12049125u64, 359447963286i64 => 978773409u64, 327874885140i64 => 472050119u64, 534260993823i64 => 712530788u64, 21365508153i64 => 777354059u64, 719717356005i64 => 49803824u64, 819871648840i64 => 232610522u64, 73122205791i64 => 900653290u64, 147176740450i64 => 599963753u64, 623294372643i64 => 15078081u64, 325475509076i64 => 471484167u64, 33464326416i64 => 135020894u64, 807843890483i64 => 787804699u64, 635622000625i64 => 257297855u64, 750757660826i64 => 246100825u64, 836000396950i64 => 990522012u64, 364899345431i64 => 122937987u64, 301134770843i64 => 827504380u64, 845444100326i64 => 280448084u64, 104967877457i64 => 906500466u64, 48443356882i64 => 116088592u64, 336526712662i64 => 895418229u64, 126395364823i64 => 351057849u64, 943091343222i64 => 70542092u64, 531571203881i64 => 139005886u64, 601196579559i64 => 353834424u64, 69456686524i64 => 437095714u64, 492465192440i64 => 395354038u64, 407924441485i64 => 229031259u64, 969951975439i64 => 922885768u64, 812947598830i64 => 534696025u64, 467547572813i64 => 631570367u64, 248476660332i64 => 884171361u64, 875442835139i64 => 670499422u64, 271513767814i64 => 201699233u64, 83192664098i64 => 767070147u64, 998173527529i64 => 223323667u64, 352163172909i64 => 475009528u64, 215133612879i64 => 306223685u64, 564050606536i64 => 676303225u64, 353901494091i64 => 912536257u64, 406926107494i64 => 689011482u64, 449132312409i64 => 15873224u64, 228552353758i64 => 77891563u64, 819575998514i64 => 383865440u64, 702418530579i64 => 670941380u64, 432776136136i64 => 689819842u64, 504746222729i64 => 524523067u64, 126220928581i64 => 154960622u64, 542398126289i64 => 97258328u64, 6624270651i64 => 963428765u64, 423816862595i64 => 908722292u64, 831971575631i64 => 579760129u64, 238272500661i64 => 364397841u64, 914379525702i64 => 198369430u64, 773784545453i64 => 717985843u64, 692075353277i64 => 826400580u64, 589769981688i64 => 703932218u64, 921978927341i64 => 776415636u64, 109475009922i64 => 577064415u64, 364427948267i64 => 915692359u64, 542384802156i64 => 362189832u64, 158935068720i64 => 964852121u64, 735385063825i64 => 732542874u64, 147654901254i64 => 953629194u64, 113434641019i64 => 324499470u64, 697174783564i64 => 171332906u64, 849914717927i64 => 726533181u64, 409841737018i64 => 1515757u64, 238160528005i64 => 318773277u64, 140039689495i64 => 593115670u64, 855496213950i64 => 617286948u64, 421240109872i64 => 37968567u64, 207081703461i64 => 916595519u64, 208552718091i64 => 293088527u64, 548789200273i64 => 144384010u64, 484710141011i64 => 995790917u64, 548343702749i64 => 7312666u64, 621584997012i64 => 224977199u64, 388262976068i64 => 177436180u64, 368703136246i64 => 471643364u64, 492970924251i64 => 144927483u64, 129626158706i64 => 963166006u64, 427978832015i64 => 470224510u64, 396693295720i64 => 358887868u64, 781481346307i64 => 688797035u64, 45702114891i64 => 281015556u64, 924063721174i64 => 956486900u64, 726587568901i64 => 162513620u64, 252850286472i64 => 192156381u64, 156324151713i64 => 596688746u64, 629638364628i64 => 530123821u64, 931338476910i64 => 434015036u64, 964164025631i64 => 140634816u64, 616431583144i64 => 989668851u64, 120502113979i64 => 874812277u64, 660622785726i64 => 442364043u64, 194222799395i64 => 360063748u64, 22706314018i64 => 602143859u64, 595515913238i64 => 64212640u64, 828124920479i64 => 46568990u64, 160757582726i64 => 39082326u64, 420817542568i64 => 251953738u64, 501975986915i64 => 353924050u64, 348990710060i64 => 792921822u64, 59647331294i64 => 815578334u64, 850267278012i64 => 954138802u64, 538728996160i64 => 357857890u64, 337906812334i64 => 507852976u64, 230091671131i64 => 674257496u64, 697055162305i64 => 589536944u64, 63628412846i64 => 966904988u64, 424608372514i64 => 183782325u64, 885317932743i64 => 915630076u64, 155212029130i64 => 142950349u64, 587577473329i64 => 114518118u64, 805428234694i64 => 127525335u64, 812907289869i64 => 555422119u64, 108709048755i64 => 840699923u64, 729794925738i64 => 52209242u64, 100988609398i64 => 401695640u64, 617549736212i64 => 8966279u64, 250467406434i64 => 359231960u64, 217501098450i64 => 191107666u64, 871334075352i64 => 904425074u64, 46346029557i64 => 161702543u64, 897297640363i64 => 991055373u64, 471764473294i64 => 50768338u64, 600093053584i64 => 89045069u64, 737076197797i64 => 111982992u64, 890318680514i64 => 759640556u64, 216138868525i64 => 406055672u64, 462322198732i64 => 583837520u64, 573709293949i64 => 35901800u64, 816654106139i64 => 837000354u64, 927865062873i64 => 192370402u64, 506562600696i64 => 504173936u64, 89734059190i64 => 736361252u64, 236497840827i64 => 715656125u64, 798364651616i64 => 693143377u64, 754642596726i64 => 475542584u64, 308387620867i64 => 358362843u64, 694645652847i64 => 519960220u64, 188678217417i64 => 428160471u64, 381467771554i64 => 97378002u64, 377721084793i64 => 294719429u64, 729236044914i64 => 690480462u64, 627963877143i64 => 237132140u64, 551522642811i64 => 705538380u64, 368842184198i64 => 7703792u64, 349436645409i64 => 905243153u64, 383407397212i64 => 631849777u64, 65483521549i64 => 465454712u64, 478817515574i64 => 398263460u64, 993102261822i64 => 678209417u64, 991225520640i64 => 556184504u64, 18409517765i64 => 797758907u64, 722372640723i64 => 854753517u64, 363121590219i64 => 478384460u64, 611732987131i64 => 160749208u64, 244049481092i64 => 510839998u64, 604696718522i64 => 932702975u64, 420903911101i64 => 329550432u64, 448483424328i64 => 51697011u64, 659590548347i64 => 992192859u64, 677379830866i64 => 593936986u64, 169420775386i64 => 300360162u64, 411151080263i64 => 702702501u64, 917366487468i64 => 446323986u64, 706891918536i64 => 943980865u64, 669922560732i64 => 806004807u64, 685834206645i64 => 805923508u64, 106419406463i64 => 199684842u64, 290687230828i64 => 541832608u64, 903750621130i64 => 537190329u64, 485733807012i64 => 924693642u64, 221697655998i64 => 360253729u64, 887248703808i64 => 819278009u64, 536611022487i64 => 386185102u64, 902343684868i64 => 424211135u64, 989775143232i64 => 799046586u64, 560204630758i64 => 530656496u64, 134982768429i64 => 675054954u64, 122328366400i64 => 636013175u64, 399147817326i64 => 704754777u64, 584132914404i64 => 351829637u64, 487040781902i64 => 790485513u64, 888471093002i64 => 835355801u64, 612629898268i64 => 136285682u64, 675983791029i64 => 864587801u64, 796046356996i64 => 529240942u64, 383310453923i64 => 88178949u64, 724856827292i64 => 117716524u64, 691862168730i64 => 703076515u64, 331621486740i64 => 465988103u64, 699830170207i64 => 901730957u64, 604527333903i64 => 952295547u64, 289117240784i64 => 717514284u64, 197133062325i64 => 998580663u64, 172501743211i64 => 861764980u64, 42201489199i64 => 821721261u64, 675262020988i64 => 719137937u64, 734150885955i64 => 669607739u64, 190116158493i64 => 955491841u64, 726230123948i64 => 178953558u64, 340687264039i64 => 244516719u64, 818853234190i64 => 669932184u64, 592003790818i64 => 583111839u64, 164808445532i64 => 204976332u64, 5675057662i64 => 256815677u64, 810510626284i64 => 714401624u64, 362549196895i64 => 656296924u64, 94055932058i64 => 180972085u64, 515600759122i64 => 848046633u64, 700963141046i64 => 760812553u64, 269873285001i64 => 332879000u64, 369629121008i64 => 262334022u64, 554256346222i64 => 346231270u64, 869276111633i64 => 824852525u64, 617125467702i64 => 591676232u64, 499906961104i64 => 545357594u64, 56465156190i64 => 196801346u64, 893981548844i64 => 416152719u64, 530327890410i64 => 436527775u64, 245146905320i64 => 121551560u64, 489621124532i64 => 590593825u64, 449918765682i64 => 803210692u64, 527418688660i64 => 973057615u64, 914798184660i64 => 469767647u64, 596851836794i64 => 75115125u64, 588995782241i64 => 932495060u64, 932239927570i64 => 961229536u64, 973243867007i64 => 711039901u64, 256889234804i64 => 296714614u64, 753111880410i64 => 1120347u64, 256126153895i64 => 954342509u64, 290749403260i64 => 404383141u64, 765684167152i64 => 980574684u64, 774174237482i64 => 871572131u64, 800079890268i64 => 735879199u64, 744323876570i64 => 886926137u64, 582016545916i64 => 796664095u64, 583915728247i64 => 434803683u64, 96252475522i64 => 116609976u64, 917637339665i64 => 164986906u64, 829159826976i64 => 27803057u64, 560950954555i64 => 957353945u64, 797115377135i64 => 456519803u64, 304573258422i64 => 943653350u64, 341855415817i64 => 22050348u64, 262855758226i64 => 891230319u64, 40453909284i64 => 900808148u64, 356772484535i64 => 96501108u64, 497869331434i64 => 811514615u64, 350354769733i64 => 231296162u64, 687279665414i64 => 878061820u64, 785702854852i64 => 197417241u64, 324474686052i64 => 886540527u64, 222792013123i64 => 754825262u64, 622364175255i64 => 565374132u64, 310349442714i64 => 530775554u64, 830765177993i64 => 498765401u64, 302680411843i64 => 190588879u64, 398318892324i64 => 992478938u64, 871310925317i64 => 723804361u64, 505947792781i64 => 802193063u64, 652148929788i64 => 839174452u64, 895172902297i64 => 301485412u64, 119387044287i64 => 668685966u64, 348360376514i64 => 805234975u64, 498554083221i64 => 904817317u64, 175077521000i64 => 489929086u64, 599463311914i64 => 76846421u64, 565116510140i64 => 786922972u64, 499809694386i64 => 539018250u64, 964732770196i64 => 208525285u64, 71901610560i64 => 924219087u64, 693622877884i64 => 247830825u64, 407895459929i64 => 514701993u64, 940435621952i64 => 960598100u64, 814917117252i64 => 122900222u64, 870203120961i64 => 31178291u64, 6190732391i64 => 195978344u64);
    m!(v, fz_scalar_map; 3i64 => 118014028u64);
    m!(v, fz_scalar_map; 43i64 => 83614038u64, 40i64 => 600405683u64);
    m!(v, fz_scalar_map; 799580303413i64 => 937617993u64, 437633847047i64 => 299079656u64, 718384822132i64 => 27699021u64, 121512368496i64 => 699782107u64);
    m!(v, fz_scalar_map; 48i64 => 588254548u64, 47i64 => 929919413u64, 46i64 => 635467855u64, 49i64 => 629991888u64, 50i64 => 747584900u64);
    m!(v, fz_scalar_map; 51i64 => 951989938u64, 48i64 => 967208086u64, 53i64 => 289468163u64, 50i64 => 285932753u64, 46i64 => 225741963u64, 49i64 => 80701934u64, 52i64 => 314729957u64, 47i64 => 627989335u64);
    m!(v, fz_scalar_map; 43i64 => 287851198u64, 47i64 => 334862891u64, 45i64 => 25464311u64, 60i64 => 386670239u64, 44i64 => 372311666u64, 38i64 => 150383985u64, 46i64 => 286481326u64, 55i64 => 772735161u64, 56i64 => 392347965u64);
    m!(v, fz_scalar_map; 468859964592i64 => 362638487u64, 82662777084i64 => 549844787u64, 755390802283i64 => 889046481u64, 371701650768i64 => 374537257u64, 203134609250i64 => 47540215u64, 739736664951i64 => 737256487u64, 549861458i64 => 878870572u64, 362836900339i64 => 681815127u64);
    m!(v, fz_scalar_map; 795759910563i64 => 315021288u64, 951662568339i64 => 356373597u64, 96849676068i64 => 456144593u64, 185889124339i64 => 712495284u64, 199099522148i64 => 661271100u64, 454089608414i64 => 931560598u64, 501078305513i64 => 77920274u64, 8666298331i64 => 176715371u64, 202868641371i64 => 190040129u64, 112320926401i64 => 938879634u64, 664367151453i64 => 902148966u64, 209009571119i64 => 190371885u64);
    m!(v, fz_scalar_map; 170020864i64 => 757738198u64, 1334419456i64 => 615033120u64, 2177908736i64 => 925077653u64, 2840084480i64 => 218123785u64, 3701686272i64 => 351047817u64, 2202746880i64 => 434929590u64, 835956736i64 => 51483947u64, 1683423232i64 => 461005406u64, 721297408i64 => 736008837u64, 2418561024i64 => 972668614u64, 598413312i64 => 454351597u64, 3882774528i64 => 482721567u64, 3526418432i64 => 175005355u64, 3760996352i64 => 411909349u64, 1295650816i64 => 468344241u64, 2572054528i64 => 329585548u64);
    m!(v, fz_scalar_map; 5i64 => 313826650u64, 12i64 => 789662855u64, 14i64 => 735869694u64, 13i64 => 264649336u64, 1i64 => 267471150u64, 16i64 => 134873994u64, 34i64 => 265172621u64, 3i64 => 345714898u64, 29i64 => 92812170u64, 23i64 => 827128215u64, 26i64 => 407390790u64, 2i64 => 561725497u64, 24i64 => 714242694u64, 7i64 => 545094608u64, 25i64 => 709225555u64, 15i64 => 274692099u64, 10i64 => 197048247u64, 6i64 => 34079942u64, 33i64 => 728698997u64, 8i64 => 900029217u64, 35i64 => 382006542u64, 19i64 => 551305583u64, 31i64 => 474454581u64, 32i64 => 267956452u64, 7000001i64 => 264965707u64, 4i64 => 307661178u64, 9i64 => 557592421u64, 21i64 => 897542655u64, 27i64 => 5051557u64, 20i64 => 536270061u64, 18i64 => 376984561u64, 28i64 => 654965418u64, 30i64 => 330926217u64, 17i64 => 699148120u64, 22i64 => 945286508u64, 11i64 => 525014952u64);
    m!(v, fz_scalar_map; 87i64 => 380975670u64, 223i64 => 178038286u64, 139i64 => 270431117u64, 208i64 => 40183647u64, 76i64 => 352607063u64, 56i64 => 553621221u64, 134i64 => 325693373u64, 91i64 => 446362666u64, 130i64 => 321362810u64, 170i64 => 576898762u64, 67i64 => 86045847u64, 79i64 => 661387228u64, 93i64 => 551183069u64, 153i64 => 264956448u64, 194i64 => 11816686u64, 151i64 => 171951139u64, 230i64 => 350180842u64, 165i64 => 655504217u64, 50i64 => 405915217u64, 89i64 => 701554467u64, 199i64 => 451046275u64, 188i64 => 29016528u64, 198i64 => 335315196u64, 140i64 => 790421236u64, 119i64 => 119881421u64, 205i64 => 28782493u64, 163i64 => 680546203u64, 116i64 => 286459005u64, 128i64 => 430141366u64, 100i64 => 782500498u64, 220i64 => 705569560u64, 136i64 => 880503106u64, 80i64 => 946004338u64, 213i64 => 673917246u64, 132i64 => 644667486u64, 135i64 => 282041204u64, 200i64 => 359161787u64, 51i64 => 325620522u64, 107i64 => 489750019u64, 193i64 => 714778722u64, 212i64 => 255051757u64, 174i64 => 116865814u64, 171i64 => 846722709u64, 211i64 => 451256695u64, 95i64 => 119262702u64, 105i64 => 917694427u64, 125i64 => 66919044u64, 121i64 => 564358769u64, 131i64 => 425614423u64, 222i64 => 327598587u64, 192i64 => 464220663u64, 203i64 => 823415740u64, 231i64 => 598321758u64, 141i64 => 263823355u64, 216i64 => 686162216u64, 184i64 => 199734135u64, 99i64 => 745710415u64, 172i64 => 688004779u64, 122i64 => 617764854u64, 224i64 => 794103168u64);
    m!(v, fz_scalar_map; 169i64 => 763045512u64, 441i64 => 79736957u64, 409i64 => 591987702u64, 852i64 => 740318082u64, 693i64 => 206988127u64, 623i64 => 42332243u64, 480i64 => 103370173u64, 247i64 => 700572996u64, 407i64 => 592488721u64, 107i64 => 573612198u64, 860i64 => 45245710u64, 404i64 => 770691638u64, 412i64 => 439914108u64, 816i64 => 746977277u64, 56i64 => 272491605u64, 205i64 => 537027972u64, 73i64 => 246430487u64, 167i64 => 310640449u64, 373i64 => 528793685u64, 434i64 => 116093359u64, 817i64 => 149937684u64, 446i64 => 949757577u64, 174i64 => 842190201u64, 539i64 => 35387052u64, 155i64 => 237602706u64, 845i64 => 414794956u64, 386i64 => 465872439u64, 295i64 => 655966333u64, 344i64 => 456445642u64, 773i64 => 439902613u64, 457i64 => 910908760u64, 24i64 => 658728641u64, 230i64 => 860616332u64, 2i64 => 120779208u64, 774i64 => 531213946u64, 616i64 => 33399568u64, 725i64 => 293594047u64, 125i64 => 833929771u64, 164i64 => 595307244u64, 400i64 => 981908012u64, 582i64 => 30035080u64, 706i64 => 618962640u64, 324i64 => 871398771u64, 652i64 => 133403207u64, 422i64 => 399598757u64, 33i64 => 974756422u64, 423i64 => 617397067u64, 231i64 => 926368205u64, 880i64 => 533293685u64, 425i64 => 625783038u64, 715i64 => 615857774u64, 433i64 => 224843828u64, 39i64 => 317949456u64, 218i64 => 572393159u64, 750i64 => 270369377u64, 826i64 => 433767620u64, 478i64 => 52667565u64, 709i64 => 560437229u64, 665i64 => 184192751u64, 149i64 => 118904558u64, 828i64 => 258552481u64, 180i64 => 729638043u64, 772i64 => 401314639u64, 692i64 => 161059115u64, 486i64 => 788384108u64, 260i64 => 779155562u64, 609i64 => 114703443u64, 614i64 => 597449862u64, 77i64 => 928093257u64, 720i64 => 708618574u64, 120i64 => 614477802u64, 531i64 => 222326385u64, 569i64 => 616803289u64, 420i64 => 583854426u64, 866i64 => 961911010u64, 476i64 => 871885657u64, 71i64 => 195452589u64, 496i64 => 174755551u64, 690i64 => 51847258u64, 553i64 => 685788384u64, 778i64 => 959352976u64, 627i64 => 974062003u64, 93i64 => 143814837u64, 450i64 => 619434127u64, 54i64 => 656637385u64, 503i64 => 279197344u64, 587i64 => 103211103u64, 220i64 => 857937303u64, 5i64 => 953154384u64, 822i64 => 395437397u64, 848i64 => 744925840u64, 135i64 => 142659795u64, 767i64 => 673114317u64, 812i64 => 446189940u64, 451i64 => 267488115u64, 287i64 => 944098176u64, 348i64 => 446013950u64, 103i64 => 468466643u64, 118i64 => 192149093u64, 113i64 => 48258819u64, 440i64 => 154954006u64, 372i64 => 340042867u64, 350i64 => 241822266u64, 684i64 => 509753299u64, 714i64 => 180785499u64, 173i64 => 510810707u64, 584i64 => 741008233u64, 824i64 => 525491123u64, 142i64 => 403018941u64, 436i64 => 791288415u64, 881i64 => 199252552u64, 61i64 => 303225643u64, 639i64 => 156243536u64, 268i64 => 403372904u64, 861i64 => 374423803u64, 621i64 => 458253836u64, 11i64 => 419538418u64, 781i64 => 234011605u64, 406i64 => 497033028u64, 375i64 => 200213444u64, 34i64 => 95665364u64, 187i64 => 153738498u64, 825i64 => 291006417u64, 854i64 => 870867717u64, 600i64 => 555075249u64, 776i64 => 538365069u64, 16i64 => 221677078u64, 640i64 => 468520387u64, 336i64 => 516216489u64, 747i64 => 658276031u64, 124i64 => 541517190u64, 296i64 => 694696745u64, 427i64 => 744381497u64, 875i64 => 900781539u64, 847i64 => 476725541u64, 796i64 => 773669008u64, 15i64 => 526581463u64, 863i64 => 652514030u64, 6i64 => 899162580u64, 240i64 => 357964201u64, 695i64 => 302050374u64, 883i64 => 373267844u64, 810i64 => 592778433u64, 301i64 => 798798278u64, 462i64 => 279560343u64, 591i64 => 896150509u64, 771i64 => 700481513u64, 212i64 => 556469909u64, 775i64 => 813411218u64, 612i64 => 54220056u64, 267i64 => 837699520u64, 728i64 => 799856692u64, 680i64 => 614406766u64, 633i64 => 115665388u64, 139i64 => 787302379u64, 206i64 => 87733292u64, 673i64 => 680458751u64, 114i64 => 287728965u64, 493i64 => 594218833u64, 732i64 => 531639409u64, 801i64 => 779169557u64, 244i64 => 751563608u64, 364i64 => 755820507u64, 284i64 => 896315833u64, 490i64 => 675933624u64, 813i64 => 397451676u64, 369i64 => 847708156u64, 562i64 => 386346624u64, 841i64 => 433329277u64, 811i64 => 705019520u64, 641i64 => 926802968u64, 151i64 => 382628357u64, 617i64 => 701302341u64, 638i64 => 568844777u64, 448i64 => 462662720u64, 729i64 => 479142861u64, 1i64 => 427913973u64, 315i64 => 977518694u64, 698i64 => 324893636u64, 243i64 => 259457990u64, 794i64 => 587699563u64, 96i64 => 367425936u64, 757i64 => 218574157u64, 798i64 => 904327949u64, 292i64 => 245114856u64, 449i64 => 23184828u64, 594i64 => 47286460u64, 352i64 => 482578624u64, 122i64 => 439851769u64, 29i64 => 84316283u64, 631i64 => 175551196u64, 136i64 => 167573668u64, 797i64 => 446962242u64, 148i64 => 518655825u64, 455i64 => 867602604u64, 359i64 => 706140359u64, 574i64 => 746083100u64, 542i64 => 146522859u64, 877i64 => 152859030u64, 494i64 => 778116641u64, 864i64 => 181138246u64, 262i64 => 713664432u64, 321i64 => 242351927u64, 210i64 => 383543519u64, 800i64 => 28919708u64, 42i64 => 610289616u64, 818i64 => 715736568u64, 431i64 => 884035335u64, 836i64 => 265044959u64, 234i64 => 45011601u64, 703i64 => 750486766u64, 809i64 => 451593382u64, 78i64 => 80461607u64, 459i64 => 609613729u64, 563i64 => 469435571u64, 44i64 => 741733319u64, 874i64 => 710689977u64, 506i64 => 855796113u64, 290i64 => 276913962u64, 756i64 => 853706868u64, 283i64 => 397889200u64, 603i64 => 295606528u64, 588i64 => 358690410u64, 746i64 => 693063776u64, 636i64 => 83221173u64, 165i64 => 254909375u64, 635i64 => 224322231u64, 161i64 => 296801513u64, 447i64 => 566395530u64, 343i64 => 636194409u64, 201i64 => 743858698u64, 381i64 => 865640783u64, 789i64 => 717472359u64, 520i64 => 45959910u64, 429i64 => 573842532u64, 683i64 => 424438548u64, 193i64 => 629091996u64, 200i64 => 19193032u64, 700i64 => 143570446u64, 377i64 => 297679500u64, 14i64 => 824656265u64, 312i64 => 500147779u64, 840i64 => 45433078u64, 676i64 => 932937414u64, 385i64 => 875078991u64, 48i64 => 259178021u64, 379i64 => 564940811u64, 752i64 => 565414241u64, 511i64 => 59671538u64, 682i64 => 263139612u64, 353i64 => 199769233u64, 573i64 => 735789401u64, 21i64 => 366681009u64, 341i64 => 868647560u64, 362i64 => 83993222u64, 646i64 => 640553982u64, 235i64 => 218331387u64, 144i64 => 393392184u64, 867i64 => 699334706u64, 7i64 => 261410362u64, 625i64 => 476968273u64, 181i64 => 837430202u64, 416i64 => 334333984u64, 779i64 => 676586341u64, 529i64 => 406302082u64, 25i64 => 265796114u64, 9i64 => 294496871u64, 566i64 => 901294753u64, 474i64 => 913407000u64, 865i64 => 203794739u64, 47i64 => 268739040u64, 537i64 => 515134427u64, 780i64 => 113014269u64, 560i64 => 992585163u64, 72i64 => 519872844u64, 245i64 => 329158291u64, 28i64 => 448856957u64, 498i64 => 846149791u64, 18i64 => 854810010u64, 727i64 => 362968358u64, 347i64 => 568153632u64, 314i64 => 246495633u64, 204i64 => 479848201u64, 86i64 => 977327524u64, 721i64 => 774987842u64, 199i64 => 751059075u64, 762i64 => 166810178u64, 65i64 => 864890950u64, 509i64 => 735290868u64, 799i64 => 129496577u64, 605i64 => 619899434u64, 221i64 => 884997738u64, 130i64 => 842299915u64, 730i64 => 925188531u64, 521i64 => 310953630u64, 141i64 => 240484456u64, 313i64 => 957446741u64);
    m!(v, fz_scalar_map; 1757859840i64 => 272070110u64, 716865536i64 => 767453775u64, 3006644224i64 => 954900051u64, 2536603648i64 => 471307111u64, 1854263296i64 => 799024015u64, 2842177536i64 => 661738863u64, 3958943744i64 => 270025822u64, 1485508608i64 => 724479138u64, 3092705280i64 => 245388925u64, 2927497216i64 => 79493870u64, 1290776576i64 => 750850478u64, 3900198912i64 => 538938942u64, 1098477568i64 => 623212048u64, 1670062080i64 => 729957996u64, 1619877888i64 => 321046931u64, 2884841472i64 => 840532728u64, 3445952512i64 => 500091258u64, 2407178240i64 => 150822992u64, 580415488i64 => 427897527u64, 1357701120i64 => 847603559u64, 3387596800i64 => 448950899u64, 1930330112i64 => 551707643u64, 2148458496i64 => 837187262u64, 260743168i64 => 353363398u64, 1524686848i64 => 732092274u64, 2921828352i64 => 199906280u64, 2796593152i64 => 744987176u64, 2325053440i64 => 209359967u64, 4000047104i64 => 279423389u64, 3074949120i64 => 370831758u64, 2972672000i64 => 57903283u64, 1595301888i64 => 945414500u64, 111804416i64 => 616106094u64, 145793024i64 => 704425090u64, 3545612288i64 => 278929614u64, 3961470976i64 => 729455171u64, 2200141824i64 => 73646003u64, 3655831552i64 => 306353326u64, 2585546752i64 => 784543844u64, 969404416i64 => 841017292u64, 603680768i64 => 521154591u64, 393740288i64 => 651652028u64, 1971245056i64 => 940909376u64, 636768256i64 => 102847509u64, 2826199040i64 => 259364366u64, 3836669952i64 => 373377507u64, 613474304i64 => 801249541u64, 1491402752i64 => 370000631u64, 2816659456i64 => 546394239u64, 460288000i64 => 454313674u64, 3630096384i64 => 416965224u64, 2755928064i64 => 839571855u64, 530169856i64 => 541813382u64, 3592495104i64 => 610533007u64, 2091352064i64 => 492220404u64, 2110201856i64 => 556545057u64, 2420228096i64 => 220897496u64, 2924273664i64 => 498473808u64, 2221494272i64 => 848224959u64, 3232915456i64 => 515604714u64, 1171599360i64 => 751669585u64, 2548060160i64 => 566300713u64, 798093312i64 => 816327450u64, 2231730176i64 => 197398302u64);
    m!(v, fz_scalar_map; 827879153159i64 => 8726096u64, 744305528334i64 => 845279974u64, 811737922672i64 => 760454767u64, 696037748829i64 => 634151534u64, 428382849480i64 => 630636530u64, 111368864284i64 => 980873651u64, 642073795472i64 => 103435859u64, 11100182308i64 => 662801223u64, 662323608530i64 => 540796649u64, 308755414881i64 => 720402950u64, 602218249778i64 => 754249954u64, 71722862091i64 => 725376752u64, 209278209241i64 => 478877982u64, 55792672682i64 => 249124309u64, 184535844543i64 => 756885729u64, 866051257300i64 => 31211982u64, 715646939441i64 => 138451748u64, 30650301665i64 => 1022588u64, 628841828172i64 => 856900251u64, 853753309293i64 => 50197174u64, 55199502169i64 => 579809421u64, 476371226734i64 => 806581591u64, 339910473571i64 => 513545287u64, 645125840367i64 => 441041140u64, 470854510312i64 => 351798597u64, 713888643442i64 => 45265182u64, 175451347722i64 => 682578671u64, 528339297613i64 => 171083258u64, 468452659585i64 => 841987274u64, 425454825542i64 => 841444064u64, 214160343000i64 => 720970470u64, 442185156371i64 => 522818241u64, 819697775317i64 => 68606927u64, 703964557129i64 => 5765327u64, 82532822091i64 => 571576137u64, 252180447477i64 => 176855769u64, 952726161838i64 => 364432563u64, 34976777777i64 => 202218285u64, 593607312172i64 => 301829020u64, 755670514322i64 => 644368276u64, 411527070997i64 => 486254328u64, 118952066759i64 => 310777496u64, 414458139310i64 => 917206435u64, 603050920479i64 => 422576919u64, 725630499706i64 => 508142064u64, 735772893274i64 => 566262351u64, 535952423742i64 => 399795534u64, 973261645934i64 => 742683732u64, 950038298272i64 => 170754742u64, 984975496939i64 => 533110871u64, 266195198640i64 => 305157319u64, 960416187526i64 => 222694793u64, 30890897215i64 => 653838332u64, 201713655854i64 => 654802384u64, 586419082106i64 => 667521630u64, 232697859066i64 => 456915505u64, 371335720563i64 => 247463734u64, 966841411396i64 => 815909692u64, 444037858325i64 => 790696174u64, 747333776958i64 => 526186896u64, 830139497021i64 => 605413432u64, 848615382015i64 => 375845238u64, 454626006658i64 => 754580502u64, 611711787096i64 => 480551741u64, 883878231872i64 => 995800016u64, 323393172984i64 => 414412763u64, 208153896433i64 => 19754689u64, 943207057908i64 => 804578599u64, 983922497179i64 => 901954719u64, 980047433607i64 => 514070868u64, 439613687813i64 => 176801936u64, 308844834891i64 => 798944079u64, 227067886715i64 => 68678350u64, 100582615036i64 => 614346091u64, 708869158669i64 => 343250386u64, 525951297599i64 => 251508076u64, 23588920227i64 => 420137946u64, 633019280407i64 => 301038111u64, 718951281166i64 => 937766892u64, 636870686951i64 => 545062829u64, 978206198215i64 => 455637540u64, 841886031407i64 => 193163038u64, 712495053434i64 => 749386039u64, 663829531046i64 => 273278483u64, 556087383061i64 => 145049128u64, 201471316680i64 => 578606590u64, 711171975367i64 => 168533347u64, 443526652485i64 => 367782895u64, 982871532799i64 => 362681635u64, 645341009650i64 => 988854015u64, 335558431373i64 => 9971873u64, 917654518166i64 => 654757001u64, 192259977531i64 => 34147841u64, 469169211095i64 => 656374006u64, 497312124120i64 => 971753252u64, 338421920313i64 => 220666063u64, 758791962020i64 => 18065056u64, 774590436817i64 => 17929126u64, 49335763135i64 => 150050u64, 659046115330i64 => 711699076u64, 779682207477i64 => 287663055u64, 165650669990i64 => 1704154u64, 201851883677i64 => 457600722u64, 966532349675i64 => 324314351u64, 919326972361i64 => 413795172u64, 255700716732i64 => 190370612u64, 400764176039i64 => 472971647u64, 978789013460i64 => 234863168u64, 250033867678i64 => 30507785u64, 208696977555i64 => 533762379u64, 210026558916i64 => 173886711u64, 756808731384i64 => 550866236u64, 568267858263i64 => 222907627u64, 587572604654i64 => 768679372u64, 745427352250i64 => 101990271u64, 680786352889i64 => 406328900u64, 37224239441i64 => 631313713u64, 13917126849i64 => 463593763u64, 838263289016i64 => 620177397u64, 209822219241i64 => 91987842u64, 184648703055i64 => 590145643u64, 981702980818i64 => 582501011u64, 153646037962i64 => 921598582u64, 323549541889i64 => 415540685u64, 57976383373i64 => 764499011u64, 647032902800i64 => 402648677u64, 576974027218i64 => 263074426u64, 326649430600i64 => 901859652u64, 765272979784i64 => 682242649u64, 72298698566i64 => 334114651u64, 27218074968i64 => 97945930u64, 457573771672i64 => 981968609u64, 477925545296i64 => 967073921u64, 57541889504i64 => 402892554u64, 572680346283i64 => 477114619u64, 957421467474i64 => 29182566u64, 825835179886i64 => 832032805u64, 903363264778i64 => 326880616u64, 339466309077i64 => 629666613u64, 281736193187i64 => 99055465u64, 250174437336i64 => 669219808u64, 735775707466i64 => 174918405u64, 37793973719i64 => 272140155u64, 681422312260i64 => 427956806u64, 827889647548i64 => 930403276u64, 526932302585i64 => 397608874u64, 619519382246i64 => 894728088u64, 878675441730i64 => 759364359u64, 8174112882i64 => 679271836u64, 621709205624i64 => 881901365u64, 564321190212i64 => 556912568u64, 915867133476i64 => 601732752u64, 299559440913i64 => 10351176u64, 648165898551i64 => 223985765u64, 209288152977i64 => 232907213u64, 51217565527i64 => 172324949u64, 26520053784i64 => 313654670u64, 920161694774i64 => 594937190u64, 197271904849i64 => 628891222u64, 163586766312i64 => 608472435u64, 423922517920i64 => 506224540u64, 298376873536i64 => 279482591u64, 916508549758i64 => 260738871u64, 711791306551i64 => 593651924u64, 372656662243i64 => 919035376u64, 575848056298i64 => 711573004u64, 387830163394i64 => 393488682u64, 877421497170i64 => 886941503u64, 438898172935i64 => 31301851u64, 188818663721i64 => 909282800u64, 674356436627i64 => 881850333u64, 448762191769i64 => 559178354u64, 663972431438i64 => 454366122u64, 128894442478i64 => 596214105u64, 75601299851i64 => 977097180u64, 824137523197i64 => 752948402u64, 100151254504i64 => 667460423u64, 822017427719i64 => 870314414u64, 377293373434i64 => 788105734u64, 67615496021i64 => 817648255u64, 475842022790i64 => 906517392u64, 523905020535i64 => 99309963u64, 660537273151i64 => 802290261u64, 593901907047i64 => 67799831u64, 486981443535i64 => 830034369u64, 881907538795i64 => 707697572u64, 304771241032i64 => 421558942u64, 432108225816i64 => 314744548u64, 749873337324i64 => 483319966u64, 905661048216i64 => 255253192u64, 690179333418i64 => 9834146u64, 99049822652i64 => 121044593u64, 695168856474i64 => 952060180u64, 98026528398i64 => 809573398u64, 49305337491i64 => 118771821u64, 986187852346i64 => 955106842u64, 380146491792i64 => 326222657u64, 81276420733i64 => 465834714u64, 424613876655i64 => 327649799u64, 705581261931i64 => 997509121u64, 410070132815i64 => 514297425u64, 8047478531i64 => 762079634u64, 579348103003i64 => 371531754u64, 988029938444i64 => 786244677u64, 761581293398i64 => 517879557u64, 671389462073i64 => 476856100u64, 361932462605i64 => 33892512u64, 447135074228i64 => 795337868u64, 26197939968i64 => 687695505u64, 828266827816i64 => 821910071u64, 118547740379i64 => 750037741u64, 43636884081i64 => 940972404u64, 758001817011i64 => 648173288u64, 9675657031i64 => 479092934u64, 744853945043i64 => 252000000u64, 523120674115i64 => 124280136u64, 951728755714i64 => 210233054u64, 542531946970i64 => 221555707u64, 763726670140i64 => 110285929u64, 902770472799i64 => 96296328u64, 865822665655i64 => 162410041u64, 69463435759i64 => 743252077u64, 449022429590i64 => 661220994u64, 550880246856i64 => 742326452u64, 456858323721i64 => 340832763u64, 328471667720i64 => 528977233u64, 663933097011i64 => 926469662u64, 132678129906i64 => 867257262u64, 918422471248i64 => 685018368u64, 945311911626i64 => 317646803u64, 420008176106i64 => 704805623u64, 476520862870i64 => 328176759u64, 402469015763i64 => 379625325u64, 310636813835i64 => 556307175u64, 47133811964i64 => 142749822u64, 705879081817i64 => 732473509u64, 802974299617i64 => 189680199u64, 807417609932i64 => 621191867u64, 64368990371i64 => 292059765u64, 895106642003i64 => 454434498u64, 15726442348i64 => 772015944u64, 883997026801i64 => 726748573u64, 785468418176i64 => 824817701u64, 20593726293i64 => 41315423u64, 211400006817i64 => 997693956u64, 811609878904i64 => 109438034u64, 572666256397i64 => 895206153u64, 644287033415i64 => 776150420u64, 234375884027i64 => 74082087u64, 413725150578i64 => 218731248u64, 862264182825i64 => 592928936u64, 8074272188i64 => 206585994u64, 323172712705i64 => 658832208u64, 144935678252i64 => 16109259u64, 17062482793i64 => 700514551u64, 99934613984i64 => 696956139u64, 874002289528i64 => 731974328u64, 637357314398i64 => 766450682u64, 119841097663i64 => 780146397u64, 156947115537i64 => 820269867u64, 729975651802i64 => 27345973u64, 347426606766i64 => 760045727u64, 6950268272i64 => 822506765u64, 583909999678i64 => 921577269u64, 599381624975i64 => 24433220u64, 105195744322i64 => 849128626u64, 636331339637i64 => 392356667u64, 874234733929i64 => 353309112u64, 397301183256i64 => 893948791u64, 748529225247i64 => 360412338u64);
    mx!(v, fz_ordered_map; 616019845189i64 => 230645441u64, 834090465200i64 => 999697075u64);
    mx!(v, fz_ordered_map; 442970979614i64 => 602398709u64, -993280001134i64 => 994156783u64, 750906886437i64 => 291410618u64, 345067175438i64 => 792736963u64);
    mx!(v, fz_ordered_map; 22i64 => 178570892u64, 21i64 => 526876379u64, 20i64 => 527258897u64, 18i64 => 869047609u64, 19i64 => 164526487u64);
    mx!(v, fz_ordered_map; -143417593638i64 => 128356888u64, -641406170835i64 => 354487446u64, 87528121253i64 => 512390007u64, -373022404169i64 => 332665688u64, 127222939466i64 => 14712595u64, -883885019098i64 => 519945592u64, 993424476528i64 => 695656396u64);
    mx!(v, fz_ordered_map; -752211082706i64 => 524712653u64, -7175958886i64 => 590887649u64, -592376351718i64 => 864467925u64, -433480517812i64 => 264457174u64, 804653829724i64 => 351196041u64, -930555345724i64 => 505549404u64, -94687255438i64 => 444983247u64, -496750558028i64 => 275779586u64);
    mx!(v, fz_ordered_map; 68i64 => 482051258u64, 35i64 => 325760245u64, 29i64 => 575038922u64, 28i64 => 110717855u64, 58i64 => 743086753u64, 32i64 => 78648146u64, 66i64 => 423670110u64, 24i64 => 120370723u64, 63i64 => 899742381u64, 26i64 => 336535870u64, 55i64 => 815505517u64, 54i64 => 715270361u64, 47i64 => 211745122u64, 39i64 => 824114597u64, 44i64 => 836698619u64);
    mx!(v, fz_ordered_map; 520508707407i64 => 78499832u64, -309185043003i64 => 17998977u64, 682254494286i64 => 688337763u64, -114805331201i64 => 690764851u64, -887736759560i64 => 165919277u64, 766732665429i64 => 829937609u64, -422417365573i64 => 145288366u64, -801410583448i64 => 570805379u64, 608325690160i64 => 852269206u64, 828020124967i64 => 336044525u64, 235427689623i64 => 871631180u64, 327346103243i64 => 960983893u64, -345541042960i64 => 61616263u64, -914668036675i64 => 637274562u64, -428257593352i64 => 151042203u64, 464729689877i64 => 79736180u64, -331572473577i64 => 774189339u64, 824821638703i64 => 564475553u64, -11883997881i64 => 310440944u64, -250982788144i64 => 375065200u64, -494448492074i64 => 329144901u64, 657137647730i64 => 128380927u64);
    mx!(v, fz_scalar_map; 19i64 => 916074335u64, 9i64 => 533203612u64, 11i64 => 406034193u64, 20i64 => 861692066u64, 17i64 => 313887905u64, 13i64 => 736463875u64);
    mx!(v, fz_hash_map; -855360701755i64 => 252211080u64, 530307899532i64 => 282271669u64, -171887607362i64 => 281447005u64);
    v
}
#[allow(dead_code)]
pub fn int_sets() -> Vec<(BSet<i64>, Vec<i64>)> {
    let mut v: Vec<(BSet<i64>, Vec<i64>)> = vec![];
    s!(v, fz_hash_set; 555290560178i64);
    s!(v, fz_hash_set; 33i64, 32i64);
    s!(v, fz_hash_set; 840206098367i64, 207541746881i64, 514376915019i64);
    s!(v, fz_hash_set; 3549491200i64, 429187072i64, 370212864i64, 2885373952i64);
    s!(v, fz_hash_set; 819417392259i64, 500934141127i64, 113736976804i64, 481158946450i64, 93653970362i64);
    s!(v, fz_hash_set; 46i64, 49i64, 48i64, 51i64, 45i64, 47i64, 50i64);
    s!(v, fz_hash_set; 233151452005i64, 390401149606i64, 831203729319i64, 727899477663i64, 674483413673i64, 512488504682i64, 152030264589i64, 645137234109i64);
    s!(v, fz_hash_set; 10i64, 47i64, 49i64, 14i64, 19i64, 11i64, 24i64, 45i64, 48i64, 12i64, 35i64, 44i64, 5i64, 29i64, 34i64);
    s!(v, fz_hash_set; 677032088921i64, 298686579856i64, 975295299455i64, 354325452456i64, 635506180906i64, 432526204412i64, 864738123902i64, 751381374026i64, 691177837804i64, 480650832199i64, 826677018210i64, 153033590159i64, 345955057537i64, 996317875663i64, 134660702781i64, 127567215519i64);
    s!(v, fz_hash_set; 3606736896i64, 329293824i64, 3885826048i64, 2868224000i64, 1207144448i64, 878944256i64, 1846493184i64, 2220544000i64, 2814668800i64, 3080228864i64, 1817751552i64, 2167373824i64, 2199699456i64, 4013338624i64, 2474541056i64, 3066540032i64, 874369024i64, 2153598976i64, 32010240i64, 3765809152i64, 3406630912i64, 525406208i64, 3116613632i64, 3181854720i64, 2753744896i64, 2485723136i64, 3185668096i64, 1434345472i64, 1214341120i64, 1477398528i64, 2374111232i64, 2851172352i64, 3157164032i64);
    s!(v, fz_ordered_set; 474564126718i64);
    s!(v, fz_ordered_set; 1i64, 2i64);
    s!(v, fz_ordered_set; 929546733118i64, 490968264727i64, 184897443500i64);
    s!(v, fz_ordered_set; 2449145856i64, 3105492992i64, 3990753280i64, 134676480i64);
    s!(v, fz_ordered_set; 301985685244i64, 555394873847i64, 992956898841i64, 931505955233i64, 440579085501i64);
    s!(v, fz_ordered_set; 42i64, 44i64, 39i64, 43i64, 45i64, 41i64, 40i64);
    s!(v, fz_ordered_set; 750854515208i64, 436414150552i64, 484401407305i64, 849926931702i64, 617552356487i64, 703704546437i64, 615206374656i64, 825062705959i64);
    s!(v, fz_ordered_set; 64i64, 61i64, 54i64, 47i64, 37i64, 63i64, 65i64, 36i64, 41i64, 50i64, 44i64, 78i64, 52i64, 46i64, 35i64);
    s!(v, fz_ordered_set; 829211158279i64, 847327976898i64, 121819082889i64, 440486365262i64, 533716920948i64, 37627598853i64, 592473973783i64, 803157539299i64, 590969848364i64, 11959988876i64, 201571074210i64, 185872346319i64, 645671878262i64, 8253610190i64, 882472823265i64, 956070799001i64);
    s!(v, fz_ordered_set; 3291824128i64, 1100759040i64, 893456384i64, 257499136i64, 3725836288i64, 2222014464i64, 876388352i64, 206127104i64, 1666293760i64, 2787295232i64, 1277194240i64, 2323931136i64, 466083840i64, 807841792i64, 529973248i64, 740601856i64, 882196480i64, 322547712i64, 603033600i64, 2045419520i64, 1483771904i64, 1432817664i64, 1594560512i64, 3508211712i64, 873291776i64, 1920819200i64, 2689343488i64, 2844708864i64, 1592897536i64, 3240738816i64, 2646200320i64, 2016763904i64, 2153299968i64);
    s!(v, fz_hash_set; 575927560397i64, 422119463091i64, 312404245112i64, 329064364200i64, 982527490777i64, 160768675637i64, 170206200696i64, 644882194903i64, 422964682440i64, 786197158047i64, 248953306094i64, 279807156325i64, 114485457496i64, 858573965966i64, 472445120941i64, 659272229638i64, 77416420105i64, 851521418495i64, 337325317987i64, 652818875583i64, 946492069319i64, 339936041986i64, 703927112248i64, 615377733147i64, 597361417101i64, 929949416449i64, 773803411395i64, 285600812690i64, 862451939818i64, 716778962966i64, 779424599529i64, 908014608954i64, 353491803352i64, 210156103730i64, 800597918386i64, 992731288738i64, 295804020522i64, 741622219538i64, 875450413950i64, 374427588070i64, 681121896030i64, 920282593978i64, 147646472146i64, 441879762137i64, 814220859798i64, 111472042828i64, 17421967559i64, 710243412618i64, 999027636848i64, 132915816994i64, 676561916048i64, 447720042590i64, 342425388219i64, 750127695814i64, 100019363721i64, 861730814015i64, 290097746619i64, 587433716382i64, 813723821183i64, 26718500045i64, 727143536695i64, 84558791465i64, 469697850438i64, 201999165295i64, 224877015820i64, 526769277624i64, 37914564636i64, 881827834955i64, 710212648013i64, 908672392962i64, 656730472607i64, 119153183592i64, 989318489181i64, 271786263930i64, 737680220291i64, 163450246794i64, 74565965582i64, 767861783809i64, 76050851502i64, 125382598031i64, 476287105488i64, 545260392053i64, 555631907597i64, 894017410934i64, 716159996088i64, 971944634473i64, 889337912235i64, 884869048174i64, 376189537814i64, 315575749077i64, 419216786598i64, 487955964194i64, 414422634758i64, 105768240133i64, 81733243987i64, 718644361256i64, 747573305960i64, 928549411706i64, 547657518878i64, 178395070634i64, 978414233423i64, 217581482268i64, 894778225203i64, 313591393966i64, 262822562841i64, 756222588425i64, 250912165923i64, 206665304572i64, 44878869876i64, 293523937652i64, 499458364652i64, 706670176431i64, 664410423298i64, 365199419458i64, 351644094347i64, 796872515653i64, 880698268003i64, 733996925689i64, 406477567166i64, 582031477843i64, 574336029535i64, 720587109270i64, 925308960587i64, 989387569825i64, 365845792432i64, 7202476853i64, 124944692637i64, 283420041924i64, 383203213512i64, 759600092706i64, 841483256782i64, 662090040001i64, 889161504671i64, 433811548632i64, 717488334898i64, 380465499832i64, 774937683081i64, 362836508269i64, 699488966861i64, 705160377912i64, 678884169856i64, 182001592122i64, 480154832150i64, 404891141934i64, 879463003990i64, 421345960802i64, 900767019286i64, 565023511552i64, 283005159021i64, 380519289927i64, 369960725481i64, 552284452487i64, 987498225330i64, 551040884738i64, 243076920024i64, 95880341540i64, 409594743080i64, 680415592250i64, 291375245969i64, 672953795758i64, 522457474686i64, 518269767609i64, 970904546353i64, 361917225314i64, 490582586702i64, 691800289056i64, 910787017462i64, 681759236026i64, 782202083616i64, 319201682414i64, 205353955478i64, 307917565035i64, 9640999369i64, 836382872680i64, 15740186724i64, 836781357267i64, 834936228914i64, 935088429233i64, 628277445666i64, 143774394556i64, 663441322317i64, 264114508806i64, 878248395480i64, 316111992279i64, 178187291505i64, 425831620992i64, 786212484239i64, 504079472557i64, 575530515032i64, 973358630891i64, 386100315560i64, 148950268408i64, 917706737983i64, 383770180845i64, 701109659185i64, 129303830235i64, 565329660060i64, 867653670964i64, 757976505977i64, 972037516263i64, 696013954478i64, 460237015767i64, 808700639724i64, 815825649089i64, 360733903182i64, 343734887587i64, 927924920766i64, 524298018587i64, 910667700010i64, 111034754198i64, 302188900423i64, 491954560221i64, 63901581923i64, 310145014142i64, 663385778962i64, 765157736653i64, 122587734070i64, 271213320763i64, 967738620950i64, 869401511273i64, 637290124495i64, 549681960030i64, 146672485978i64, 855236412176i64, 419452999625i64, 432746597956i64, 162781689523i64, 688310181900i64, 88721014057i64, 866521062625i64, 747832524461i64, 939265625509i64, 737444214583i64, 891080812916i64, 631040993338i64, 1897811649i64, 597741744065i64, 357226424980i64, 736532161544i64, 935398190517i64, 858132498385i64, 303308568152i64, 621242714383i64, 486362897577i64, 705389236445i64, 222689587848i64, 739167844565i64, 613553427554i64, 100511530312i64, 329015437869i64, 286453104747i64, 148579116814i64, 694059827309i64, 409135442930i64, 70673766432i64, 674824811504i64, 236294521345i64, 539484090950i64, 119821783761i64, 898082356235i64, 503465224258i64, 142008098018i64, 392908439528i64, 862640831704i64, 249471196941i64, 810237419885i64, 797306101816i64, 144343753262i64, 989904465696i64, 802779712249i64, 807559042266i64, 909208077911i64, 585346018256i64, 520017713219i64, 604715225172i64, 99202613230i64, 744868344104i64, 823361496792i64, 398498796733i64, 40171586213i64, 854478162167i64, 613500426712i64, 25591755624i64, 435485633690i64, 326032292772i64, 585903725428i64, 223276435843i64, 474493260004i64, 624116606881i64, 892196009930i64, 273157251526i64, 196150533891i64, 318776231188i64, 494133429201i64, 1287221070i64, 924863090i64, 405340219230i64, 278491693000i64, 343285424134i64, 44712918484i64);
    s!(v, fz_scalar_set; 2i64);
    s!(v, fz_scalar_set; 12i64, 8i64);
    s!(v, fz_scalar_set; 673499078016i64, 726932618806i64, 897304576075i64, 771826657519i64);
    s!(v, fz_scalar_set; 43i64, 42i64, 45i64, 46i64, 44i64);
    s!(v, fz_scalar_set; 18i64, 20i64, 16i64, 15i64, 14i64, 17i64, 19i64, 13i64);
    s!(v, fz_scalar_set; 15i64, 14i64, 2i64, 3i64, 6i64, 1i64, 4i64, 11i64, 5i64);
    s!(v, fz_scalar_set; 112429805969i64, 815070623758i64, 432627243479i64, 466870645507i64, 92043805114i64, 746725529350i64, 773323763723i64, 776001835936i64);
    s!(v, fz_scalar_set; 157710672162i64, 187550265058i64, 187522578643i64, 759446124573i64, 71533465884i64, 950429575413i64, 794823304482i64, 37926876371i64, 566224573432i64, 92878343355i64, 768545459994i64, 191859438293i64);
    s!(v, fz_scalar_set; 1118732288i64, 3989577728i64, 69136384i64, 2204319744i64, 2869706752i64, 2351792128i64, 3695079424i64, 3048914944i64, 3068534784i64, 3094110208i64, 3972030464i64, 2326609920i64, 1312649216i64, 514441216i64, 3836784640i64, 2121912320i64);
    s!(v, fz_scalar_set; 83i64, 55i64, 45i64, 52i64, 82i64, 59i64, 53i64, 57i64, 70i64, 77i64, 62i64, 64i64, 69i64, 68i64, 67i64, 71i64, 54i64, 76i64, 79i64, 61i64, 60i64, 78i64, 74i64, 58i64, 46i64, 63i64, 50i64, 56i64, 72i64, 49i64, 65i64, 73i64, 66i64, 47i64, 80i64, 81i64, 51i64, 44i64, 48i64, 75i64);
    s!(v, fz_scalar_set; 155i64, 147i64, 130i64, 131i64, 96i64, 152i64, 216i64, 145i64, 135i64, 79i64, 66i64, 230i64, 210i64, 91i64, 174i64, 75i64, 136i64, 99i64, 222i64, 106i64, 161i64, 58i64, 82i64, 170i64, 123i64, 175i64, 141i64, 211i64, 177i64, 72i64, 126i64, 178i64, 55i64, 190i64, 60i64, 156i64, 122i64, 166i64, 87i64, 78i64, 115i64, 69i64, 146i64, 50i64, 84i64, 107i64, 111i64, 103i64, 102i64, 204i64, 129i64, 154i64, 71i64, 110i64, 198i64, 109i64, 119i64, 101i64, 73i64, 118i64);
    s!(v, fz_scalar_set; 173i64, 672i64, 569i64, 227i64, 310i64, 514i64, 232i64, 121i64, 817i64, 696i64, 136i64, 761i64, 556i64, 825i64, 784i64, 527i64, 315i64, 369i64, 483i64, 282i64, 458i64, 195i64, 346i64, 237i64, 863i64, 668i64, 368i64, 546i64, 848i64, 518i64, 839i64, 875i64, 99i64, 92i64, 710i64, 816i64, 351i64, 789i64, 126i64, 558i64, 617i64, 459i64, 712i64, 417i64, 140i64, 489i64, 803i64, 708i64, 676i64, 653i64, 74i64, 108i64, 929i64, 352i64, 557i64, 198i64, 743i64, 436i64, 928i64, 443i64, 700i64, 194i64, 888i64, 677i64, 718i64, 560i64, 614i64, 157i64, 584i64, 271i64, 559i64, 774i64, 265i64, 174i64, 594i64, 740i64, 666i64, 936i64, 807i64, 159i64, 101i64, 451i64, 167i64, 488i64, 889i64, 143i64, 754i64, 266i64, 47i64, 599i64, 468i64, 760i64, 797i64, 389i64, 547i64, 747i64, 885i64, 648i64, 574i64, 905i64, 269i64, 738i64, 946i64, 497i64, 102i64, 135i64, 904i64, 563i64, 644i64, 71i64, 187i64, 579i64, 886i64, 675i64, 226i64, 659i64, 89i64, 128i64, 583i64, 320i64, 513i64, 843i64, 148i64, 734i64, 858i64, 853i64, 258i64, 508i64, 566i64, 219i64, 646i64, 350i64, 517i64, 857i64, 763i64, 137i64, 374i64, 746i64, 859i64, 715i64, 509i64, 586i64, 609i64, 206i64, 802i64, 247i64, 397i64, 851i64, 581i64, 502i64, 334i64, 721i64, 376i64, 486i64, 63i64, 131i64, 503i64, 430i64, 125i64, 398i64, 344i64, 698i64, 838i64, 435i64, 689i64, 613i64, 183i64, 64i64, 402i64, 378i64, 277i64, 132i64, 301i64, 678i64, 234i64, 235i64, 339i64, 274i64, 521i64, 353i64, 832i64, 360i64, 146i64, 604i64, 116i64, 628i64, 835i64, 201i64, 245i64, 103i64, 171i64, 525i64, 113i64, 256i64, 705i64, 829i64, 923i64, 779i64, 441i64, 328i64, 499i64, 84i64, 427i64, 686i64, 410i64, 553i64, 948i64, 899i64, 437i64, 892i64, 457i64, 707i64, 91i64, 610i64, 641i64, 294i64, 661i64, 724i64, 432i64, 285i64, 97i64, 387i64, 660i64, 561i64, 881i64, 934i64, 750i64, 687i64, 726i64, 415i64, 703i64, 180i64, 338i64, 919i64, 162i64, 536i64, 922i64, 845i64, 150i64, 264i64, 639i64, 551i64, 429i64, 170i64, 901i64, 500i64, 414i64, 495i64, 88i64, 818i64, 623i64, 767i64, 396i64, 806i64, 384i64, 76i64, 769i64, 133i64, 727i64, 175i64, 380i64, 713i64, 321i64, 701i64, 612i64, 645i64, 931i64, 241i64, 671i64, 298i64, 870i64, 278i64, 920i64, 267i64, 139i64, 601i64, 223i64, 202i64, 224i64, 391i64, 540i64, 313i64, 567i64, 314i64, 426i64, 381i64, 783i64, 606i64, 665i64, 349i64, 510i64, 205i64, 844i64, 800i64, 917i64, 478i64, 912i64, 345i64, 728i64, 405i64);
    s!(v, fz_scalar_set; 3100299264i64, 2375032832i64, 300613632i64, 1296998400i64, 759222272i64, 3738259456i64, 3761999872i64, 2099339264i64, 133939200i64, 1862938624i64, 2413072384i64, 477155328i64, 1109569536i64, 1869475840i64, 2743783424i64, 3953876992i64, 1974964224i64, 1129922560i64, 2164359168i64, 3976769536i64, 1218486272i64, 346992640i64, 1092476928i64, 370835456i64, 3412697088i64, 1981796352i64, 1427034112i64, 3907014656i64, 44773376i64, 1833881600i64, 3524136960i64, 3662663680i64, 2782924800i64, 45297664i64, 588660736i64, 1435975680i64, 3045883904i64, 2757980160i64, 507801600i64, 1691418624i64, 2495496192i64, 3788263424i64, 3053633536i64, 597073920i64, 1392439296i64, 177508352i64, 3129659392i64, 2301722624i64, 3377545216i64, 1824587776i64, 3071557632i64, 4094443520i64, 3149201408i64, 3442675712i64, 3031293952i64, 347635712i64, 3403063296i64, 3588161536i64, 1097502720i64, 1429524480i64, 535896064i64, 2938703872i64, 3939827712i64, 4081344512i64);
    s!(v, fz_scalar_set; 276398038654i64, 272242596503i64, 220928915475i64, 835466032785i64, 229289402144i64, 446963778077i64, 219638005573i64, 8285647425i64, 104842730472i64, 121545279700i64, 977948399377i64, 917934615219i64, 207663411329i64, 563758571i64, 368362294383i64, 547079182438i64, 16448238920i64, 246771288165i64, 485385689451i64, 519980390747i64, 167821212599i64, 163747596920i64, 547285604287i64, 247178502871i64, 328242102169i64, 352667498522i64, 314309532772i64, 38723149089i64, 779160294351i64, 384526953899i64, 585710129808i64, 920951229760i64, 549314674584i64, 747189933560i64, 650223414617i64, 780365658256i64, 795487853265i64, 765226642706i64, 541827453934i64, 750411031774i64, 459582796302i64, 676766064692i64, 954583374766i64, 883208241198i64, 458043806445i64, 455791443177i64, 40478653214i64, 123100926734i64, 999007820174i64, 108035101888i64, 688605537446i64, 40405804904i64, 475210208990i64, 155127721000i64, 165209845139i64, 849654701847i64, 285193105489i64, 814930250683i64, 559899199231i64, 623010420690i64, 400181648898i64, 692408010083i64, 888077308547i64, 576639830031i64, 329823070383i64, 717677502412i64, 628759586100i64, 478671073732i64, 262500582855i64, 588792455781i64, 400945368194i64, 381612724819i64, 419908241021i64, 299704434457i64, 948124791857i64, 871752959295i64, 900063620599i64, 896685543767i64, 180924266023i64, 306359488083i64, 755561422750i64, 865443688790i64, 761022672610i64, 831642558509i64, 605233926024i64, 379823671746i64, 130982901701i64, 965435847427i64, 781711788059i64, 62791522166i64, 797330976396i64, 101734360793i64, 385898007101i64, 608560196370i64, 773699476324i64, 330224198500i64, 12951813937i64, 692530359249i64, 760537691076i64, 890945124243i64, 102030809315i64, 219616912355i64, 384125205787i64, 88833932817i64, 124194433621i64, 620835951756i64, 491665554223i64, 697184960251i64, 728394402533i64, 972597187910i64, 406162710918i64, 387838532062i64, 249751451302i64, 590039565825i64, 518451069955i64, 908900049362i64, 1924430299i64, 219547471338i64, 455296095957i64, 651555089293i64, 593420099925i64, 205164903518i64, 971602237505i64, 187693524047i64, 138212751858i64, 464928692725i64, 746144793780i64, 523999141085i64, 294056381851i64, 824605586327i64, 816192094078i64, 421465720400i64, 967376797098i64, 955217800818i64, 429561233270i64, 18508721495i64, 910324642790i64, 277841795082i64, 970037376045i64, 109533660406i64, 472378823784i64, 645422914279i64, 21118002592i64, 179395458689i64, 395024919653i64, 182788254215i64, 959359536253i64, 396301268677i64, 565661554023i64, 815316417275i64, 460302881723i64, 855252070364i64, 492174328532i64, 605533724418i64, 638433565243i64, 722645518591i64, 587206295084i64, 289720620575i64, 186817709802i64, 926303405924i64, 984977684328i64, 329876296151i64, 479315876931i64, 432031760410i64, 6008452310i64, 579225615491i64, 957967824815i64, 15996043622i64, 769329128751i64, 465164878431i64, 621650891576i64, 219805331671i64, 548886017492i64, 148443613737i64, 932572411949i64, 473915116139i64, 302046236040i64, 995751765294i64, 166873273241i64, 932527395664i64, 342033121331i64, 622288568767i64, 754874700120i64, 744836504442i64, 366127581144i64, 891462050488i64, 43163823490i64, 427982612139i64, 548323932546i64, 388827017442i64, 783409060820i64, 486174700385i64, 390851410367i64, 364672151317i64, 647314161274i64, 835256022453i64, 201065058084i64, 843515199498i64, 360900817432i64, 798016100456i64, 600636695694i64, 825393904360i64, 575964059354i64, 163599275458i64, 16228618581i64, 466154570916i64, 746120542340i64, 990149987629i64, 865130644416i64, 360676601181i64, 869732680960i64, 23304328145i64, 602169271916i64, 393455844675i64, 346926584643i64, 994644366772i64, 979029999605i64, 445208570797i64, 885833688529i64, 451651333195i64, 459407126704i64, 9684238679i64, 584221954987i64, 626952586964i64, 395055810348i64, 757122626640i64, 673752565525i64, 636454185933i64, 135105356098i64, 367100968767i64, 151025976233i64, 122754732176i64, 437741649814i64, 140809298870i64, 329661619488i64, 721541388086i64, 405732814409i64, 564008072327i64, 241920659811i64, 143739844381i64, 127704005837i64, 800302699965i64, 509670626366i64, 345862933762i64, 341116074885i64, 150425847039i64, 75069265688i64, 248409399000i64, 415471798957i64, 508133453389i64, 765095475772i64, 136319371173i64, 483638638188i64, 519983942297i64, 115878365026i64, 571495000418i64, 941548249438i64, 832771483735i64, 580115193277i64, 387640221425i64, 95156104124i64, 470080585820i64, 10120779223i64, 570819543897i64, 230145371566i64, 167742945319i64, 702561042614i64, 976938788389i64, 607816426588i64, 899695480885i64);
    sx!(v, fz_ordered_set; 742995105734i64, -987575557820i64);
    sx!(v, fz_ordered_set; -736052360541i64, -2569143029i64, 406487354010i64, 729016160141i64);
    sx!(v, fz_ordered_set; -30i64, -33i64, -31i64, -34i64, -32i64);
    sx!(v, fz_ordered_set; 759529162278i64, -839502961803i64, 332923537104i64, 131701259078i64, -539983309524i64, 287090967938i64, -698046547217i64);
    sx!(v, fz_ordered_set; -736768990731i64, 89318208437i64, -518469907489i64, -713021913063i64, -384320093580i64, 126446427563i64, 251299548487i64, 383817591748i64);
    sx!(v, fz_ordered_set; -20i64, -22i64, -21i64, 3i64, -31i64, -12i64, -26i64, -25i64, -4i64, 8i64, -36i64, -1i64, -8i64, -9i64, -17i64);
    sx!(v, fz_ordered_set; 61605855078i64, -653664336344i64, -192371360133i64, -708719348796i64, -506687470876i64, 119479413253i64, -513928724407i64, 618826176144i64, -127443498927i64, -951602770857i64, 777945752523i64, 839604174384i64, -610931949907i64, 486430910547i64, -362941990888i64, 39018482889i64, -849009529487i64, -487512892025i64, 570925977206i64, 503433692376i64, -399485001637i64, 968182914961i64);
    sx!(v, fz_scalar_set; 1i64, 9i64, 12i64, 5i64, -2i64, -6i64);
    sx!(v, fz_hash_set; -364946887925i64, 225446945620i64, 738898918000i64);
    v
}
#[allow(dead_code)]
pub fn str_maps() -> Vec<(BMap<St>, Vec<(St, V)>)> {
    let mut v: Vec<(BMap<St>, Vec<(St, V)>)> = vec![];
    mx!(v, fz_ordered_map; "aswan\"" => 306579292u64, "日本b" => 181581019u64, "日本iirfddq" => 812237086u64);
    mx!(v, fz_ordered_map; "cnv" => 161802110u64, "eul" => 151850258u64, "krjkwb" => 970459365u64, "日本fusxcq" => 619588256u64);
    mx!(v, fz_ordered_map; "item1" => 119567740u64, "item2" => 33474022u64, "item3" => 167303650u64, "item6" => 363472155u64, "item5" => 49924580u64, "item4" => 412082809u64);
    mx!(v, fz_ordered_map; "common-head-oqg" => 157204965u64, "common-head-ayl" => 877636909u64, "common-head-qvo" => 941934588u64, "common-head-wbm" => 41690595u64, "common-head-rwq" => 345361126u64, "common-head-mbt" => 704026424u64, "common-head-yyt" => 930734791u64, "common-head-fnq" => 360260742u64, "common-head-msp" => 862369963u64, "common-head-ziw" => 491092684u64, "common-head-qnl" => 557614453u64);
    mx!(v, fz_hash_map; "" => 953946633u64, "éyrq" => 252143768u64, "日本darq" => 461096299u64);
    m!(v, fz_string_map; "kjq" => 281669431u64);
    m!(v, fz_string_map; "omh-common-tail" => 735946348u64, "uds-common-tail" => 449744811u64);
    m!(v, fz_string_map; "item3" => 331411231u64, "item1" => 736746720u64, "item2" => 915246287u64);
    m!(v, fz_string_map; "hog-common-tail" => 878800252u64, "gvk-common-tail" => 217666625u64, "rxi-common-tail" => 28008941u64, "dxn-common-tail" => 682367204u64);
    m!(v, fz_string_map; "common-head-qzz" => 972364301u64, "common-head-nyy" => 346696597u64, "common-head-twf" => 397246474u64, "common-head-zld" => 986994076u64, "common-head-rgt" => 346955604u64);
    m!(v, fz_string_map; "xx" => 228035040u64, "xxxxxxxxxxxx" => 991619287u64, "xxxxxx" => 917967442u64, "xxxx" => 968926058u64, "xxxxxxxxxx" => 573429625u64, "xxxxxxxx" => 83364403u64);
    m!(v, fz_string_map; "éba" => 617329358u64, "keyhdpbwrq" => 247457319u64, "日本fnufdsq" => 134465341u64, "日本\"" => 376618628u64, "kvsuugq" => 985524465u64, "key" => 207766448u64, "日本l" => 557051953u64, "iq" => 888316710u64);
    m!(v, fz_string_map; "item11" => 168628449u64, "item4" => 587945729u64, "item3" => 819395908u64, "item10" => 966831226u64, "item8" => 685814739u64, "item5" => 493658814u64, "item1" => 819122978u64, "item6" => 514126972u64, "item12" => 553721255u64, "item7" => 916344305u64, "item2" => 573312101u64, "item9" => 728408683u64);
    m!(v, fz_string_map; "uhz-common-tail" => 981512498u64, "qgv-common-tail" => 257036781u64, "ywb-common-tail" => 812184166u64, "cgs-common-tail" => 432626434u64, "chd-common-tail" => 940450262u64, "aam-common-tail" => 322334645u64, "rcj-common-tail" => 829255857u64, "asz-common-tail" => 571900910u64, "xsx-common-tail" => 138862377u64, "nhg-common-tail" => 145912923u64, "bgr-common-tail" => 345875169u64, "eiv-common-tail" => 491601612u64, "lrq-common-tail" => 980566823u64, "duz-common-tail" => 997959540u64, "sos-common-tail" => 383049716u64, "viz-common-tail" => 190119844u64, "emd-common-tail" => 272934039u64, "mep-common-tail" => 593836324u64, "pib-common-tail" => 806007291u64, "qhx-common-tail" => 328817593u64);
    m!(v, fz_string_map; "common-head-xvd" => 500010144u64, "common-head-asj" => 233112637u64, "common-head-pmm" => 599033977u64, "common-head-vcx" => 174492231u64, "common-head-yep" => 17608996u64, "common-head-qhi" => 435132851u64, "common-head-ifi" => 307208091u64, "common-head-ihi" => 968813242u64, "common-head-eja" => 649781677u64, "common-head-wkm" => 212754444u64, "common-head-lpy" => 158129349u64, "common-head-vhj" => 745812773u64, "common-head-iam" => 333440177u64, "common-head-szb" => 116922609u64, "common-head-ocr" => 262989875u64, "common-head-zad" => 467729652u64, "common-head-nxl" => 74893491u64, "common-head-quc" => 59209972u64, "common-head-wiv" => 15223343u64, "common-head-def" => 370316358u64, "common-head-zbm" => 971288717u64, "common-head-tyy" => 300760046u64, "common-head-tly" => 232620407u64, "common-head-wqi" => 602226959u64, "common-head-bvh" => 415170744u64, "common-head-ngp" => 742760523u64, "common-head-smi" => 761227017u64, "common-head-dac" => 279350420u64, "common-head-alx" => 752457784u64, "common-head-wqt" => 343539851u64, "common-head-ewr" => 892319615u64, "common-head-xtw" => 890481289u64, "common-head-qxk" => 22165198u64);
    m!(v, fz_string_map; "édoi\"" => 106862128u64, "échbdl" => 363287955u64, "keygicq" => 630314184u64, "kj" => 563638854u64, "ésssnpk\"" => 255982195u64, "kfk" => 296144477u64, "éegxq\"" => 173037931u64, "mt\"" => 104911120u64, "éxvcglbq" => 299447437u64, "日本kmlh\"" => 521535123u64, "éklniz" => 815680681u64, "mpma\"" => 908113568u64, "keyfq" => 308302143u64, "日本k\"" => 81791517u64, "日本fdmydp" => 636675557u64, "日本walxq" => 814601838u64, "éz" => 697688016u64, "ércanqk\"" => 477229074u64, "keaq" => 140212590u64, "ktiemtk\"" => 319835894u64, "ku\"" => 46882709u64, "keypx" => 238041380u64, "kxsvh" => 586920875u64, "thq" => 746540238u64, "keykq" => 308382493u64, "keynzjxq" => 89263914u64, "kbq" => 417084827u64, "oq" => 631206303u64, "é\"" => 963636864u64, "éjugq" => 920757243u64, "keyhrsen\"" => 561429211u64, "日本ffwsr" => 10658720u64, "日本bxj\"" => 202329256u64, "vpgzfqq" => 793561841u64, "日本kodq" => 517741732u64, "kxpk\"" => 691847976u64, "日本uq" => 606871878u64, "k" => 151605849u64, "éuoerwzq" => 232150158u64, "z\"" => 513860075u64, "rpmvez" => 964330863u64, "opmnxdq" => 44749436u64, "z" => 194154955u64, "kyok" => 521431204u64, "日本ef" => 621727783u64, "keyicbxxj\"" => 456750062u64, "éfq" => 723578419u64, "日本bq" => 319759859u64, "menkt\"" => 279572154u64, "xn\"" => 859286278u64, "日本ujpq" => 128014833u64, "kq" => 604634258u64, "keyeadb\"" => 763600186u64, "keyhd\"" => 808428600u64, "édxfjq" => 667822940u64, "日本byuj\"" => 707365161u64, "émerm" => 74438011u64, "日本fwsirw" => 803714971u64, "q" => 95033572u64, "tiw\"" => 765715285u64);
    m!(v, fz_string_map; "item71" => 862218570u64, "item2" => 516244822u64, "item23" => 15434300u64, "item89" => 891599509u64, "item30" => 380137020u64, "item96" => 664685393u64, "item44" => 471573394u64, "item79" => 770279178u64, "item100" => 207173593u64, "item33" => 917533347u64, "item90" => 142433263u64, "item94" => 104997467u64, "item60" => 739009601u64, "item95" => 340119286u64, "item52" => 431740965u64, "item27" => 143010974u64, "item37" => 547502609u64, "item63" => 807154556u64, "item58" => 332395157u64, "item17" => 667325048u64, "item19" => 528630025u64, "item66" => 600697499u64, "item98" => 169350773u64, "item55" => 753739348u64, "item25" => 674638672u64, "item83" => 784811458u64, "item91" => 53956776u64, "item78" => 913155188u64, "item67" => 309574471u64, "item42" => 601180149u64, "item82" => 704905736u64, "item9" => 475369212u64, "item62" => 283290061u64, "item3" => 766312792u64, "item24" => 234977813u64, "item53" => 43999419u64, "item69" => 257441511u64, "item26" => 419919348u64, "item50" => 946148336u64, "item73" => 873315190u64, "item36" => 386507597u64, "item22" => 287996416u64, "item32" => 751822163u64, "item46" => 571937038u64, "item6" => 669872659u64, "item88" => 328564368u64, "item18" => 462350489u64, "item86" => 531407925u64, "item34" => 279777172u64, "item35" => 232399094u64, "item31" => 516344510u64, "item43" => 43820730u64, "item39" => 812765892u64, "item1" => 49457953u64, "item77" => 670580522u64, "item28" => 932235745u64, "item10" => 147850616u64, "item70" => 141683920u64, "item74" => 525984345u64, "item12" => 241051326u64, "item59" => 195943197u64, "item47" => 600360341u64, "item56" => 755323286u64, "item4" => 548786477u64, "item99" => 96598450u64, "item49" => 918054221u64, "item5" => 560881431u64, "item81" => 189695650u64, "item11" => 967145226u64, "item48" => 790241577u64, "item21" => 766589462u64, "item65" => 444254640u64, "item80" => 789192070u64, "item92" => 791584219u64, "item16" => 774560408u64, "item61" => 914944754u64, "item76" => 589981799u64, "item8" => 793819035u64, "item7" => 927017725u64, "item40" => 960284749u64, "item20" => 855002668u64, "item13" => 422762017u64, "item29" => 290082120u64, "item41" => 385818862u64, "item97" => 259114007u64, "item93" => 465761149u64, "item45" => 361950562u64, "item64" => 712069474u64, "item75" => 590546303u64, "item54" => 113660525u64, "item87" => 831183699u64, "item38" => 805994663u64, "item15" => 151398342u64, "item51" => 525138042u64, "item57" => 385989170u64, "item84" => 154543550u64, "item14" => 764898802u64, "item85" => 660205357u64, "item68" => 135863656u64, "item72" => 252952224u64);
    m!(v, fz_string_map; "item105" => 928741521u64, "item125" => 705945910u64, "item98" => 44775336u64, "item23" => 29169530u64, "item178" => 511209865u64, "item224" => 179623014u64, "item37" => 944531436u64, "item202" => 18796413u64, "item14" => 159482602u64, "item180" => 854222384u64, "item139" => 898198451u64, "item13" => 464603946u64, "item259" => 13732247u64, "item163" => 785952306u64, "item65" => 487946138u64, "item57" => 840443948u64, "item298" => 414908013u64, "item59" => 189028644u64, "item64" => 1275507u64, "item49" => 654461529u64, "item123" => 612488189u64, "item88" => 325521029u64, "item220" => 898788841u64, "item265" => 127491396u64, "item32" => 754258882u64, "item141" => 947772195u64, "item204" => 316437165u64, "item189" => 602394567u64, "item12" => 156054384u64, "item28" => 595644886u64, "item55" => 228306641u64, "item195" => 904996085u64, "item200" => 406223841u64, "item268" => 610632146u64, "item263" => 537601917u64, "item63" => 449616597u64, "item258" => 455690785u64, "item77" => 641676388u64, "item51" => 803083826u64, "item216" => 205249606u64, "item61" => 648016460u64, "item142" => 703106221u64, "item275" => 115089422u64, "item136" => 372974242u64, "item143" => 935108091u64, "item167" => 456398116u64, "item237" => 322121974u64, "item205" => 627022131u64, "item297" => 899919488u64, "item300" => 376666458u64, "item45" => 249831597u64, "item181" => 784667226u64, "item165" => 47756163u64, "item140" => 742934896u64, "item43" => 901532251u64, "item91" => 227268744u64, "item38" => 120365640u64, "item239" => 596036175u64, "item173" => 198763169u64, "item256" => 100497992u64, "item27" => 366845718u64, "item197" => 723396047u64, "item97" => 507506196u64, "item159" => 552739101u64, "item228" => 749704935u64, "item183" => 466460109u64, "item18" => 934264485u64, "item157" => 740684491u64, "item194" => 454246530u64, "item151" => 625250744u64, "item67" => 945056607u64, "item112" => 842027604u64, "item150" => 601117740u64, "item16" => 644861433u64, "item286" => 744541940u64, "item169" => 396385058u64, "item241" => 796365614u64, "item107" => 408996641u64, "item254" => 687575023u64, "item128" => 817564053u64, "item280" => 738909383u64, "item52" => 343383696u64, "item87" => 270398451u64, "item116" => 847764690u64, "item60" => 779316335u64, "item120" => 580625964u64, "item30" => 629791515u64, "item229" => 546312042u64, "item278" => 142699308u64, "item230" => 923679095u64, "item196" => 600378773u64, "item225" => 101842332u64, "item174" => 585038295u64, "item179" => 645772810u64, "item92" => 864983726u64, "item83" => 428067920u64, "item82" => 729035373u64, "item227" => 973990487u64, "item29" => 133702928u64, "item4" => 831880080u64, "item70" => 404002408u64, "item177" => 36547572u64, "item166" => 714918731u64, "item133" => 515858046u64, "item131" => 159055316u64, "item203" => 257071970u64, "item281" => 247095144u64, "item207" => 924025528u64, "item44" => 271597281u64, "item235" => 673562003u64, "item282" => 182032620u64, "item245" => 39834407u64, "item81" => 490844927u64, "item54" => 448572206u64, "item209" => 410871348u64, "item126" => 261297766u64, "item42" => 508497151u64, "item246" => 235924576u64, "item199" => 841007549u64, "item231" => 983871462u64, "item103" => 867361087u64, "item130" => 285406267u64, "item90" => 955672203u64, "item253" => 397722764u64, "item283" => 759063574u64, "item24" => 17439082u64, "item146" => 288912682u64, "item294" => 325407246u64, "item288" => 77319398u64, "item62" => 502654536u64, "item191" => 214334841u64, "item56" => 225721220u64, "item168" => 869368952u64, "item110" => 886188174u64, "item3" => 191701321u64, "item76" => 190128243u64, "item214" => 643533188u64, "item176" => 713480654u64, "item222" => 473564645u64, "item226" => 722029199u64, "item161" => 626203605u64, "item153" => 545796132u64, "item99" => 607531100u64, "item188" => 916033515u64, "item198" => 841575875u64, "item250" => 806054258u64, "item11" => 647519785u64, "item135" => 587609582u64, "item53" => 615773936u64, "item262" => 362463219u64, "item232" => 744475721u64, "item284" => 614941032u64, "item127" => 196368044u64, "item40" => 793586575u64, "item147" => 415522713u64, "item154" => 546063596u64, "item210" => 735157218u64, "item124" => 194698812u64, "item269" => 57935607u64, "item100" => 539129070u64, "item15" => 808121263u64, "item271" => 889560751u64, "item285" => 834050017u64, "item221" => 142475058u64, "item69" => 890930379u64, "item234" => 239648728u64, "item295" => 707932794u64, "item117" => 775920528u64, "item122" => 708514276u64, "item9" => 316389172u64, "item35" => 830077073u64, "item85" => 209479664u64, "item218" => 223058846u64, "item279" => 334397609u64, "item266" => 746237554u64, "item47" => 74206897u64, "item21" => 261351906u64, "item152" => 362030153u64, "item238" => 461191404u64, "item264" => 289947776u64, "item236" => 619494896u64, "item192" => 315668072u64, "item175" => 559640719u64, "item290" => 992319024u64, "item252" => 356131754u64, "item217" => 396880910u64, "item89" => 858420830u64, "item247" => 651303659u64, "item80" => 957792857u64, "item171" => 807749361u64, "item119" => 760347210u64, "item185" => 738302111u64, "item296" => 526305586u64, "item102" => 838633808u64, "item145" => 855241368u64, "item182" => 91924421u64, "item149" => 605658876u64, "item190" => 517450782u64, "item111" => 163155744u64, "item158" => 259514874u64, "item109" => 285342413u64, "item106" => 377491098u64, "item19" => 447125839u64, "item287" => 872884001u64, "item137" => 918297544u64, "item94" => 962171995u64, "item170" => 373795421u64, "item134" => 770654960u64, "item187" => 997477134u64, "item162" => 846181910u64, "item84" => 86291231u64, "item155" => 281374447u64, "item293" => 342756356u64, "item212" => 29796863u64, "item121" => 542044436u64, "item78" => 924109735u64, "item48" => 602118105u64, "item50" => 366441689u64, "item244" => 375655182u64, "item193" => 260151444u64, "item270" => 606836281u64, "item114" => 354558518u64, "item274" => 265196386u64, "item273" => 865716224u64, "item291" => 811495041u64, "item104" => 969886252u64, "item36" => 729015698u64, "item292" => 7032600u64, "item6" => 93007806u64, "item223" => 756704236u64, "item66" => 572881657u64, "item93" => 731710906u64, "item289" => 471539004u64, "item68" => 377999467u64, "item148" => 624466855u64, "item233" => 344549466u64, "item22" => 215295114u64, "item118" => 974043861u64, "item186" => 772205455u64, "item86" => 929699603u64, "item156" => 239504276u64, "item96" => 360715845u64, "item7" => 592932831u64, "item257" => 586625604u64, "item2" => 841758885u64, "item260" => 561822500u64, "item58" => 756726717u64, "item255" => 751016912u64, "item108" => 773430825u64, "item251" => 510608971u64, "item215" => 398598995u64, "item219" => 590717500u64, "item213" => 771144889u64, "item201" => 80927881u64, "item74" => 700112991u64, "item132" => 706973463u64, "item272" => 648434633u64, "item160" => 973155606u64, "item101" => 900154726u64, "item31" => 564584081u64, "item299" => 335641839u64, "item79" => 898091785u64, "item277" => 826645945u64, "item17" => 902849859u64, "item39" => 821368695u64, "item41" => 273296399u64, "item33" => 181698807u64, "item242" => 550638941u64, "item20" => 30768971u64, "item240" => 852527704u64, "item206" => 279519711u64, "item75" => 964174444u64, "item95" => 802488679u64, "item144" => 545819959u64, "item248" => 469459724u64, "item1" => 833432393u64, "item208" => 404970622u64, "item249" => 765622143u64, "item71" => 205008205u64, "item243" => 305706193u64, "item113" => 931841039u64, "item267" => 657399489u64, "item129" => 688787710u64, "item73" => 714022908u64, "item25" => 982039755u64, "item115" => 559016406u64, "item72" => 484870469u64, "item164" => 726619140u64, "item10" => 199495509u64, "item276" => 758240397u64, "item211" => 365805931u64, "item138" => 259694565u64, "item172" => 949174445u64, "item26" => 906177971u64, "item184" => 748981824u64, "item261" => 635245629u64, "item5" => 882232062u64, "item8" => 209878956u64, "item46" => 947365080u64, "item34" => 315122921u64);
    m!(v, fz_hash_map; "q" => 412187655u64, "日本czh" => 541448798u64);
    m!(v, fz_hash_map; "item5" => 293020214u64, "item3" => 610618640u64, "item4" => 938662514u64, "item1" => 999231769u64, "item2" => 179208223u64);
    m!(v, fz_hash_map; "k\"" => 674498627u64, "kccj\"" => 359637991u64, "ksfup\"" => 314366560u64, "kuctq" => 804486730u64, "keyln" => 148335343u64, "ézdq" => 485225826u64, "kjrtnq" => 617003828u64, "kjlq" => 390893271u64, "keymtnq" => 629104868u64);
    m!(v, fz_hash_map; "jya-common-tail" => 475504942u64, "pum-common-tail" => 934863432u64, "xvo-common-tail" => 541928265u64, "pbt-common-tail" => 949457210u64, "azs-common-tail" => 372727498u64, "sst-common-tail" => 630672034u64, "tmn-common-tail" => 775884043u64, "mdo-common-tail" => 438798973u64, "wif-common-tail" => 342255505u64, "wat-common-tail" => 748819092u64, "hnp-common-tail" => 740237819u64, "yss-common-tail" => 151750620u64, "lbf-common-tail" => 599704754u64, "pyn-common-tail" => 57670205u64, "kpi-common-tail" => 792134114u64, "obh-common-tail" => 336587407u64, "byf-common-tail" => 192269825u64, "fav-common-tail" => 839115864u64, "mfn-common-tail" => 656667081u64, "yxz-common-tail" => 992055691u64, "epm-common-tail" => 502209251u64, "oti-common-tail" => 487897435u64, "pjo-common-tail" => 506352434u64, "lsu-common-tail" => 375209504u64, "nsk-common-tail" => 72431441u64, "btp-common-tail" => 914298712u64, "bgb-common-tail" => 65208586u64, "hzr-common-tail" => 129946678u64, "qoi-common-tail" => 471719727u64, "ngg-common-tail" => 160217888u64);
    m!(v, fz_ordered_map; "keylfbsyb\"" => 498411331u64, "éeoyt" => 283206310u64);
    m!(v, fz_ordered_map; "item1" => 245543985u64, "item2" => 464056449u64, "item3" => 165830737u64, "item4" => 291729479u64, "item5" => 844629156u64);
    m!(v, fz_ordered_map; "évww" => 456029321u64, "éq" => 670508451u64, "éxqeaq" => 383466706u64, "éncq" => 396548573u64, "éuwogob\"" => 815483889u64, "日本xkvwq" => 793402734u64, "hnox\"" => 722808888u64, "日本sz\"" => 380744778u64, "frwq" => 506007806u64);
    m!(v, fz_ordered_map; "iws-common-tail" => 939201120u64, "whi-common-tail" => 791299643u64, "gmt-common-tail" => 972010566u64, "xiv-common-tail" => 715736345u64, "ztr-common-tail" => 152339014u64, "bvu-common-tail" => 243847311u64, "mtl-common-tail" => 221491049u64, "yia-common-tail" => 913271637u64, "osu-common-tail" => 932121501u64, "fuk-common-tail" => 305675799u64, "jml-common-tail" => 718012431u64, "gjy-common-tail" => 954894869u64, "dgu-common-tail" => 656968000u64, "isq-common-tail" => 102979265u64, "dpp-common-tail" => 862005894u64, "sdc-common-tail" => 919908540u64, "tmw-common-tail" => 846793190u64, "zqv-common-tail" => 766862442u64, "mvx-common-tail" => 428778987u64, "xbt-common-tail" => 893916038u64, "wuw-common-tail" => 526002694u64, "fll-common-tail" => 884457731u64, "ojt-common-tail" => 727026113u64, "oom-common-tail" => 768069268u64, "dgb-common-tail" => 853906751u64, "ukl-common-tail" => 851000130u64, "qpo-common-tail" => 297454190u64, "xia-common-tail" => 354375649u64, "oaj-common-tail" => 576987532u64, "wbl-common-tail" => 384155016u64);
    v
}
#[allow(dead_code)]
pub fn str_sets() -> Vec<(BSet<St>, Vec<St>)> {
    let mut v: Vec<(BSet<St>, Vec<St>)> = vec![];
    sx!(v, fz_ordered_set; "kutba\"", "keyq", "日本xgfmks\"");
    sx!(v, fz_ordered_set; "ébdk", "日本", "日本amzq", "ki");
    sx!(v, fz_ordered_set; "item4", "item3", "item2", "item1", "item5", "item6");
    sx!(v, fz_ordered_set; "common-head-ymd", "common-head-bbq", "common-head-bkf", "common-head-pnh", "common-head-cmz", "common-head-opu", "common-head-llx", "common-head-lvx", "common-head-lkq", "common-head-gpp", "common-head-zin");
    sx!(v, fz_hash_set; "keyjobkl", "key\"", "keyscjeu");
    s!(v, fz_string_set; "éfvf\"");
    s!(v, fz_string_set; "pgc-common-tail", "uqw-common-tail");
    s!(v, fz_string_set; "item1", "item3", "item2");
    s!(v, fz_string_set; "gmk-common-tail", "ojx-common-tail", "wxn-common-tail", "rvj-common-tail");
    s!(v, fz_string_set; "common-head-eql", "common-head-kot", "common-head-xap", "common-head-gax", "common-head-gqb");
    s!(v, fz_string_set; "xxxx", "xx", "xxxxxxxx", "xxxxxxxxxxxx", "xxxxxx", "xxxxxxxxxx");
    s!(v, fz_string_set; "gckmf\"", "key\"", "njsq", "jlpvxc", "日本ltth\"", "kajly\"", "mqi", "keyilq");
    s!(v, fz_string_set; "item5", "item11", "item8", "item10", "item4", "item9", "item7", "item12", "item3", "item2", "item6", "item1");
    s!(v, fz_string_set; "agk-common-tail", "pvb-common-tail", "gpd-common-tail", "rei-common-tail", "ozt-common-tail", "cji-common-tail", "usi-common-tail", "wte-common-tail", "rki-common-tail", "pbl-common-tail", "pyp-common-tail", "qlp-common-tail", "lxm-common-tail", "siw-common-tail", "vmt-common-tail", "xlb-common-tail", "woh-common-tail", "ewl-common-tail", "rzr-common-tail", "cju-common-tail");
    s!(v, fz_string_set; "common-head-fpk", "common-head-cnx", "common-head-prq", "common-head-fte", "common-head-dwl", "common-head-nld", "common-head-jvq", "common-head-phv", "common-head-yqn", "common-head-zuo", "common-head-fkp", "common-head-mkc", "common-head-bwc", "common-head-okr", "common-head-xxx", "common-head-lxo", "common-head-yiw", "common-head-ozh", "common-head-ofs", "common-head-mvm", "common-head-fjp", "common-head-dze", "common-head-aht", "common-head-bkh", "common-head-dic", "common-head-kta", "common-head-lkh", "common-head-lna", "common-head-cgc", "common-head-deh", "common-head-huc", "common-head-klm", "common-head-bjb");
    s!(v, fz_string_set; "日本veyjoh", "oeq", "日本yeywfoq", "keyv", "日本cfreo\"", "", "k\"", "gek\"", "key", "kedwlub", "qhlf", "wdbq", "keykecfwn\"", "日本q", "keyfv\"", "keyjisyq", "uxhbayq", "éhl", "日本i", "gtoxph\"", "pu\"", "éjaapm", "éugjkgu\"", "日本lge\"", "xddeyd", "日本gkmvtl\"", "kbs\"", "日本\"", "wycl\"", "日本ttkady", "kunj\"", "kkq", "éyi", "\"", "éri\"", "日本yekce", "éqqbmvw", "éc", "kjxurs\"", "émmiu", "kbncq", "kt\"", "kadq", "日本rbq", "keymq", "xq", "kiw", "khlq", "fu\"", "keycq", "keydirq\"", "k", "日本rvjkxdq", "日本cvg\"", "qmlq", "日本wq", "keyfnxwqrq", "ut\"", "keyjatsr", "ro");
    s!(v, fz_string_set; "item67", "item36", "item64", "item75", "item91", "item86", "item50", "item72", "item10", "item16", "item35", "item12", "item42", "item51", "item94", "item73", "item34", "item27", "item30", "item5", "item6", "item46", "item25", "item81", "item18", "item82", "item29", "item26", "item97", "item13", "item52", "item87", "item49", "item96", "item11", "item55", "item17", "item70", "item74", "item88", "item14", "item41", "item83", "item98", "item39", "item60", "item76", "item2", "item61", "item15", "item63", "item80", "item99", "item93", "item7", "item1", "item43", "item28", "item19", "item9", "item92", "item20", "item53", "item78", "item45", "item84", "item77", "item21", "item59", "item32", "item95", "item89", "item22", "item54", "item24", "item33", "item48", "item56", "item40", "item8", "item44", "item66", "item4", "item79", "item68", "item37", "item57", "item100", "item38", "item3", "item31", "item65", "item62", "item69", "item23", "item58", "item85", "item47", "item71", "item90");
    s!(v, fz_string_set; "item144", "item126", "item71", "item285", "item159", "item184", "item236", "item251", "item48", "item283", "item77", "item10", "item50", "item99", "item287", "item203", "item158", "item45", "item25", "item238", "item299", "item72", "item279", "item38", "item78", "item74", "item160", "item54", "item93", "item226", "item195", "item175", "item294", "item191", "item172", "item235", "item69", "item219", "item240", "item32", "item121", "item136", "item249", "item102", "item138", "item291", "item147", "item198", "item167", "item229", "item255", "item51", "item296", "item85", "item64", "item231", "item91", "item27", "item233", "item39", "item47", "item100", "item59", "item192", "item163", "item34", "item171", "item17", "item84", "item282", "item36", "item95", "item214", "item254", "item206", "item87", "item30", "item270", "item33", "item18", "item208", "item188", "item40", "item63", "item7", "item57", "item61", "item247", "item137", "item9", "item86", "item166", "item261", "item150", "item151", "item281", "item56", "item178", "item237", "item131", "item176", "item174", "item13", "item118", "item101", "item259", "item276", "item120", "item73", "item170", "item70", "item298", "item262", "item22", "item28", "item223", "item124", "item242", "item190", "item257", "item211", "item244", "item201", "item20", "item26", "item221", "item200", "item263", "item154", "item6", "item117", "item253", "item272", "item58", "item141", "item143", "item23", "item52", "item246", "item132", "item224", "item42", "item271", "item209", "item4", "item218", "item44", "item14", "item37", "item278", "item269", "item173", "item199", "item168", "item116", "item83", "item125", "item110", "item187", "item62", "item81", "item129", "item212", "item222", "item1", "item165", "item75", "item53", "item284", "item89", "item67", "item230", "item94", "item60", "item217", "item109", "item31", "item29", "item88", "item108", "item241", "item35", "item225", "item183", "item142", "item15", "item220", "item216", "item197", "item182", "item115", "item155", "item162", "item152", "item146", "item292", "item98", "item123", "item140", "item66", "item189", "item104", "item186", "item103", "item205", "item185", "item227", "item135", "item234", "item5", "item122", "item106", "item290", "item111", "item90", "item204", "item256", "item24", "item266", "item145", "item215", "item157", "item79", "item43", "item113", "item127", "item161", "item2", "item213", "item252", "item153", "item119", "item92", "item258", "item169", "item68", "item76", "item180", "item239", "item228", "item248", "item96", "item300", "item288", "item181", "item280", "item275", "item179", "item41", "item207", "item133", "item11", "item49", "item112", "item265", "item21", "item264", "item194", "item164", "item267", "item105", "item107", "item245", "item19", "item156", "item210", "item273", "item274", "item260", "item289", "item65", "item250", "item295", "item286", "item80", "item232", "item148", "item46", "item97", "item149", "item268", "item130", "item82", "item55", "item114", "item293", "item277", "item196", "item297", "item134", "item12", "item16", "item177", "item139", "item128", "item8", "item3", "item193", "item202", "item243");
    s!(v, fz_hash_set; "日本saw", "éq");
    s!(v, fz_hash_set; "item3", "item5", "item1", "item2", "item4");
    s!(v, fz_hash_set; "\"", "zizq\"", "q", "knua", "f", "vdcl\"", "kpsa\"", "kauauh\"", "kodfy");
    s!(v, fz_hash_set; "qmp-common-tail", "let-common-tail", "npr-common-tail", "pon-common-tail", "vxy-common-tail", "lbr-common-tail", "aco-common-tail", "qil-common-tail", "uso-common-tail", "cwp-common-tail", "vdm-common-tail", "sca-common-tail", "pjv-common-tail", "uqi-common-tail", "jyf-common-tail", "wnx-common-tail", "jrb-common-tail", "efn-common-tail", "ghe-common-tail", "yjw-common-tail", "bmt-common-tail", "wgd-common-tail", "bnz-common-tail", "qop-common-tail", "omx-common-tail", "zdn-common-tail", "jdm-common-tail", "tnq-common-tail", "fyb-common-tail", "zto-common-tail");
    s!(v, fz_ordered_set; "srdiw", "éysf\"");
    s!(v, fz_ordered_set; "item2", "item3", "item5", "item1", "item4");
    s!(v, fz_ordered_set; "keyzcq\"", "日本ixgeq", "日本ngblq", "日本ns\"", "日本lbt", "日本qa", "vvjkz\"", "gyxfzs", "keyceemqbq");
    s!(v, fz_ordered_set; "emk-common-tail", "ywe-common-tail", "dce-common-tail", "iqq-common-tail", "kmk-common-tail", "awl-common-tail", "pnk-common-tail", "hfc-common-tail", "bro-common-tail", "ndo-common-tail", "qfo-common-tail", "nzu-common-tail", "hvq-common-tail", "fuq-common-tail", "gtd-common-tail", "tdz-common-tail", "uxp-common-tail", "seg-common-tail", "rgg-common-tail", "gpb-common-tail", "ygv-common-tail", "jxo-common-tail", "hah-common-tail", "eak-common-tail", "kpi-common-tail", "axp-common-tail", "bih-common-tail", "uny-common-tail", "yrl-common-tail", "dib-common-tail");
    v
}

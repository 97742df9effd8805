//! Written by fields.py.
#![allow(non_upper_case_globals)]
use ark_ff::fields::{Fp, MontBackend, MontConfig};
#[derive(MontConfig)]
#[modulus = "3"]
#[generator = "2"]
pub struct C0;
pub type F0 = Fp<MontBackend<C0, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1596386249"]
#[generator = "3"]
pub struct C1;
pub type F1 = Fp<MontBackend<C1, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "9428101795904748917"]
#[generator = "2"]
pub struct C2;
pub type F2 = Fp<MontBackend<C2, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "532005514744205436019370002217"]
#[generator = "2"]
pub struct C3;
pub type F3 = Fp<MontBackend<C3, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "256316696651066659343272999907459004821"]
#[generator = "2"]
pub struct C4;
pub type F4 = Fp<MontBackend<C4, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "39902906025029043280760588249366493889974617303821696826579"]
#[generator = "2"]
pub struct C5;
pub type F5 = Fp<MontBackend<C5, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "11031144092466049414958738270089023570972237458913718114941155413232556671"]
#[generator = "2"]
pub struct C6;
pub type F6 = Fp<MontBackend<C6, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "48447089921359637313548469613449497382556004455715272985027957903224606014149"]
#[generator = "2"]
pub struct C7;
pub type F7 = Fp<MontBackend<C7, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "2895875014619402154815344697662579881702245406728766653520907582544890065676555885695017820404009221947856537067111"]
#[generator = "2"]
pub struct C8;
pub type F8 = Fp<MontBackend<C8, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "7"]
#[generator = "3"]
pub struct C9;
pub type F9 = Fp<MontBackend<C9, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1293173467"]
#[generator = "3"]
pub struct C10;
pub type F10 = Fp<MontBackend<C10, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "9357242167141826203"]
#[generator = "2"]
pub struct C11;
pub type F11 = Fp<MontBackend<C11, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "549029752884652114647794181979"]
#[generator = "2"]
pub struct C12;
pub type F12 = Fp<MontBackend<C12, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "226125194265411981708245387843438670979"]
#[generator = "2"]
pub struct C13;
pub type F13 = Fp<MontBackend<C13, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "27249096896593767125835592889272936870877879257810387097197"]
#[generator = "2"]
pub struct C14;
pub type F14 = Fp<MontBackend<C14, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "10560725685332735062300269858300812456370933529667816089796931902046785713"]
#[generator = "2"]
pub struct C15;
pub type F15 = Fp<MontBackend<C15, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "37522404521426731251549186192427226623425816856454412141733924326291390624199"]
#[generator = "2"]
pub struct C16;
pub type F16 = Fp<MontBackend<C16, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4659124856559574731560583894358993785791972299438938602566831852225864338545393063049271852042267678906911030287413"]
#[generator = "2"]
pub struct C17;
pub type F17 = Fp<MontBackend<C17, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "31"]
#[generator = "3"]
pub struct C18;
pub type F18 = Fp<MontBackend<C18, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1478541511"]
#[generator = "3"]
pub struct C19;
pub type F19 = Fp<MontBackend<C19, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "11663319376041071611"]
#[generator = "2"]
pub struct C20;
pub type F20 = Fp<MontBackend<C20, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "546344229284205031246296444811"]
#[generator = "2"]
pub struct C21;
pub type F21 = Fp<MontBackend<C21, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "176244764815015161153233824891638252031"]
#[generator = "2"]
pub struct C22;
pub type F22 = Fp<MontBackend<C22, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "26868695464987072420251795692651503130434384511612939776741"]
#[generator = "2"]
pub struct C23;
pub type F23 = Fp<MontBackend<C23, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "12510806085957979375445969241346917524047767735062967020158729989741739741"]
#[generator = "2"]
pub struct C24;
pub type F24 = Fp<MontBackend<C24, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "34335433123645479487650644163814291803531197686238071176028697378376954333331"]
#[generator = "2"]
pub struct C25;
pub type F25 = Fp<MontBackend<C25, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "3939323808477644524924904601010484734213856060633923163344609247000071469358824325245362355671935406591444993911271"]
#[generator = "2"]
pub struct C26;
pub type F26 = Fp<MontBackend<C26, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "211"]
#[generator = "2"]
pub struct C27;
pub type F27 = Fp<MontBackend<C27, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1509959851"]
#[generator = "7"]
pub struct C28;
pub type F28 = Fp<MontBackend<C28, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "9805204673151456031"]
#[generator = "6"]
pub struct C29;
pub type F29 = Fp<MontBackend<C29, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "361995864639200044866468806791"]
#[generator = "2"]
pub struct C30;
pub type F30 = Fp<MontBackend<C30, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "224445561441610095102981829976007575341"]
#[generator = "2"]
pub struct C31;
pub type F31 = Fp<MontBackend<C31, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "40186846297560756157958024071491165492941106774103403375401"]
#[generator = "2"]
pub struct C32;
pub type F32 = Fp<MontBackend<C32, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "12864581811059756027238403583059563198162446906541155528617827104689425331"]
#[generator = "2"]
pub struct C33;
pub type F33 = Fp<MontBackend<C33, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "36610459439314866938421787797130836355837208229689567924505539458047229100581"]
#[generator = "2"]
pub struct C34;
pub type F34 = Fp<MontBackend<C34, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4658347028154099566683852708998216717794201017188984817302242418430100601942649229661416660203622067786082669538821"]
#[generator = "2"]
pub struct C35;
pub type F35 = Fp<MontBackend<C35, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "3571"]
#[generator = "2"]
pub struct C36;
pub type F36 = Fp<MontBackend<C36, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1478768971"]
#[generator = "12"]
pub struct C37;
pub type F37 = Fp<MontBackend<C37, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "15835815876230259211"]
#[generator = "2"]
pub struct C38;
pub type F38 = Fp<MontBackend<C38, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "508733259354481249868450959891"]
#[generator = "2"]
pub struct C39;
pub type F39 = Fp<MontBackend<C39, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "305465214335542606285966134982142442061"]
#[generator = "2"]
pub struct C40;
pub type F40 = Fp<MontBackend<C40, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "30716495081488683994048015199786917954655794335081928147531"]
#[generator = "2"]
pub struct C41;
pub type F41 = Fp<MontBackend<C41, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "13038085783123103238631410895678938339378669730609193853384316587416147821"]
#[generator = "2"]
pub struct C42;
pub type F42 = Fp<MontBackend<C42, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "30399620893852535521122915961175772557251282340984142079578310599430056139471"]
#[generator = "2"]
pub struct C43;
pub type F43 = Fp<MontBackend<C43, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4921953903017864414490007092060244500010600181163700378575524779772139496495146258096882136484490078819304753597591"]
#[generator = "2"]
pub struct C44;
pub type F44 = Fp<MontBackend<C44, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "46411"]
#[generator = "3"]
pub struct C45;
pub type F45 = Fp<MontBackend<C45, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1324541401"]
#[generator = "31"]
pub struct C46;
pub type F46 = Fp<MontBackend<C46, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "13499440854304767181"]
#[generator = "6"]
pub struct C47;
pub type F47 = Fp<MontBackend<C47, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "624583214021030691578453039011"]
#[generator = "2"]
pub struct C48;
pub type F48 = Fp<MontBackend<C48, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "290669344877017683203708219211691510621"]
#[generator = "2"]
pub struct C49;
pub type F49 = Fp<MontBackend<C49, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "37897131667783295480713565791712276562727229039930295870691"]
#[generator = "2"]
pub struct C50;
pub type F50 = Fp<MontBackend<C50, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "10676235977873147682162257016144886141592105184191855535774294056323813711"]
#[generator = "2"]
pub struct C51;
pub type F51 = Fp<MontBackend<C51, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "34614408478730086855520421614870955403332808298653486851338414378034621679531"]
#[generator = "2"]
pub struct C52;
pub type F52 = Fp<MontBackend<C52, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "2520113217103527459224537547697321759898227080714106964817113192274923201594163484830023087413862656321485678585691"]
#[generator = "2"]
pub struct C53;
pub type F53 = Fp<MontBackend<C53, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "4084081"]
#[generator = "19"]
pub struct C54;
pub type F54 = Fp<MontBackend<C54, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1393692301"]
#[generator = "2"]
pub struct C55;
pub type F55 = Fp<MontBackend<C55, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "14714377272794589391"]
#[generator = "7"]
pub struct C56;
pub type F56 = Fp<MontBackend<C56, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "585388306165835596035767285131"]
#[generator = "2"]
pub struct C57;
pub type F57 = Fp<MontBackend<C57, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "268149076336602251017463522799132189571"]
#[generator = "2"]
pub struct C58;
pub type F58 = Fp<MontBackend<C58, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "33796327232886478047080404299481083490093858334525105661211"]
#[generator = "2"]
pub struct C59;
pub type F59 = Fp<MontBackend<C59, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "8762683108994185562044805847400950573226119019702259546739536873511065641"]
#[generator = "2"]
pub struct C60;
pub type F60 = Fp<MontBackend<C60, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "34607439025327701286612754130492543276071620899102209355075736880670629900611"]
#[generator = "2"]
pub struct C61;
pub type F61 = Fp<MontBackend<C61, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4808716721490695929678621684311244510894170974371600599187075259465430435871240985686397955918427319738644984399981"]
#[generator = "2"]
pub struct C62;
pub type F62 = Fp<MontBackend<C62, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "82192111"]
#[generator = "6"]
pub struct C63;
pub type F63 = Fp<MontBackend<C63, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1608617011"]
#[generator = "26"]
pub struct C64;
pub type F64 = Fp<MontBackend<C64, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "11473045913263094161"]
#[generator = "31"]
pub struct C65;
pub type F65 = Fp<MontBackend<C65, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "390996267746370490518021768061"]
#[generator = "2"]
pub struct C66;
pub type F66 = Fp<MontBackend<C66, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "203606691384383695246833012737190752281"]
#[generator = "2"]
pub struct C67;
pub type F67 = Fp<MontBackend<C67, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "29121266287285540431772645547503248971730873619812456345841"]
#[generator = "2"]
pub struct C68;
pub type F68 = Fp<MontBackend<C68, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "8811119675431795446102657833082810434398777361244595133063685995185095331"]
#[generator = "2"]
pub struct C69;
pub type F69 = Fp<MontBackend<C69, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "34988640270299452201453363893150038191507979816998831562396296704774622361881"]
#[generator = "2"]
pub struct C70;
pub type F70 = Fp<MontBackend<C70, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4310202108992857977184961012319621012573270423097664900640334718353689409940214964133272793731060560660005685315211"]
#[generator = "2"]
pub struct C71;
pub type F71 = Fp<MontBackend<C71, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "892371481"]
#[generator = "58"]
pub struct C72;
pub type F72 = Fp<MontBackend<C72, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "14991307452294223051"]
#[generator = "7"]
pub struct C73;
pub type F73 = Fp<MontBackend<C73, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "389594813791349294193765740041"]
#[generator = "2"]
pub struct C74;
pub type F74 = Fp<MontBackend<C74, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "218294523786897547400668687018992382981"]
#[generator = "2"]
pub struct C75;
pub type F75 = Fp<MontBackend<C75, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "42474432441510146523104405930460496844543222293152147964981"]
#[generator = "2"]
pub struct C76;
pub type F76 = Fp<MontBackend<C76, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "12861015552941034843901375899792353837621309302518706164548441163642579631"]
#[generator = "2"]
pub struct C77;
pub type F77 = Fp<MontBackend<C77, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "39140090121653164944972661523732475249172669597608727794063730494632130749971"]
#[generator = "2"]
pub struct C78;
pub type F78 = Fp<MontBackend<C78, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4631465042464562639483056311946268865909058371528054681354123456811199681730768638257210429914501013115664282293431"]
#[generator = "2"]
pub struct C79;
pub type F79 = Fp<MontBackend<C79, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "47964967051"]
#[generator = "2"]
pub struct C80;
pub type F80 = Fp<MontBackend<C80, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "10092282614455431391"]
#[generator = "7"]
pub struct C81;
pub type F81 = Fp<MontBackend<C81, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "477160901666673785564441277841"]
#[generator = "2"]
pub struct C82;
pub type F82 = Fp<MontBackend<C82, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "291244029679632074519052559980934965031"]
#[generator = "2"]
pub struct C83;
pub type F83 = Fp<MontBackend<C83, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "33080663349964029970515450257078714123392498174506891447331"]
#[generator = "2"]
pub struct C84;
pub type F84 = Fp<MontBackend<C84, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "9622843486913091861312702551471951156456068526751103916366455586517661051"]
#[generator = "2"]
pub struct C85;
pub type F85 = Fp<MontBackend<C85, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "41882148908484114459785049975121998005511183884117000372384971959307586224501"]
#[generator = "2"]
pub struct C86;
pub type F86 = Fp<MontBackend<C86, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4872361790727391935130276431919780038414141529117914116610139944098232201934598258179514877624350671269982244123551"]
#[generator = "2"]
pub struct C87;
pub type F87 = Fp<MontBackend<C87, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "3146501838481"]
#[generator = "29"]
pub struct C88;
pub type F88 = Fp<MontBackend<C88, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "11093255751090212701"]
#[generator = "29"]
pub struct C89;
pub type F89 = Fp<MontBackend<C89, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "509640294820532998250552454031"]
#[generator = "2"]
pub struct C90;
pub type F90 = Fp<MontBackend<C90, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "260956871202189120950227303519071129511"]
#[generator = "2"]
pub struct C91;
pub type F91 = Fp<MontBackend<C91, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "47218230284086407162552811451533759051867986667491333280141"]
#[generator = "2"]
pub struct C92;
pub type F92 = Fp<MontBackend<C92, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "10345109872419544880094925550759976767175541948292552465633814990126849421"]
#[generator = "2"]
pub struct C93;
pub type F93 = Fp<MontBackend<C93, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "53285282635772070079538609592448186480257486724336712987169162047463208517251"]
#[generator = "2"]
pub struct C94;
pub type F94 = Fp<MontBackend<C94, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "3807163461580473259673332132409626645698140863011667914987361233523403475255725871776960656500955492149052477291891"]
#[generator = "2"]
pub struct C95;
pub type F95 = Fp<MontBackend<C95, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "29105142005941"]
#[generator = "2"]
pub struct C96;
pub type F96 = Fp<MontBackend<C96, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "14697762003866631691"]
#[generator = "2"]
pub struct C97;
pub type F97 = Fp<MontBackend<C97, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "425417610570307487916458184511"]
#[generator = "2"]
pub struct C98;
pub type F98 = Fp<MontBackend<C98, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "182772441797730458571796861365459586531"]
#[generator = "2"]
pub struct C99;
pub type F99 = Fp<MontBackend<C99, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "43013474407036590675223270509200934733307685845163459827821"]
#[generator = "2"]
pub struct C100;
pub type F100 = Fp<MontBackend<C100, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "12508156824317733351977490398577004701514861075994759622781464214912539871"]
#[generator = "2"]
pub struct C101;
pub type F101 = Fp<MontBackend<C101, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "39774611058911059351165296203571706360018480657262361555052791228538314342511"]
#[generator = "2"]
pub struct C102;
pub type F102 = Fp<MontBackend<C102, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4002564548152518449956102787739612791745416040341942431777325953851158759182401798271185881860985823727169237602231"]
#[generator = "2"]
pub struct C103;
pub type F103 = Fp<MontBackend<C103, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "902259402184141"]
#[generator = "6"]
pub struct C104;
pub type F104 = Fp<MontBackend<C104, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "18119173314661899481"]
#[generator = "106"]
pub struct C105;
pub type F105 = Fp<MontBackend<C105, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "321277748949664131367389787141"]
#[generator = "2"]
pub struct C106;
pub type F106 = Fp<MontBackend<C106, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "309519835676407437217887643820221213921"]
#[generator = "2"]
pub struct C107;
pub type F107 = Fp<MontBackend<C107, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "50140594534336307873929461341259509863491731393968871971591"]
#[generator = "2"]
pub struct C108;
pub type F108 = Fp<MontBackend<C108, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "10105576790920765769026029604205102663540502802044599938664314855581920221"]
#[generator = "2"]
pub struct C109;
pub type F109 = Fp<MontBackend<C109, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "34989102680061030810887031532124716651068902147780869341977356052008572126811"]
#[generator = "2"]
pub struct C110;
pub type F110 = Fp<MontBackend<C110, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "3221845362262375078588469020022338975415722989603675999249668018155739995926240538106426144291397621507613289365291"]
#[generator = "2"]
pub struct C111;
pub type F111 = Fp<MontBackend<C111, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "78496567990020181"]
#[generator = "2"]
pub struct C112;
pub type F112 = Fp<MontBackend<C112, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "12153885277121457871"]
#[generator = "6"]
pub struct C113;
pub type F113 = Fp<MontBackend<C113, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "465648327313890654692898179041"]
#[generator = "2"]
pub struct C114;
pub type F114 = Fp<MontBackend<C114, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "313012764160926702894962617296957196861"]
#[generator = "2"]
pub struct C115;
pub type F115 = Fp<MontBackend<C115, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "50040203107790994964598001409320449455428240574466880839851"]
#[generator = "2"]
pub struct C116;
pub type F116 = Fp<MontBackend<C116, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "13563294320611855136440917241969060222499757413521745068887580107182420281"]
#[generator = "2"]
pub struct C117;
pub type F117 = Fp<MontBackend<C117, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "30335008542295801175845304652398947954238686526118932901547023277678557867241"]
#[generator = "2"]
pub struct C118;
pub type F118 = Fp<MontBackend<C118, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "2682093903419276668178231266801604880898381369449877587880302852592629180042008542136463104099762620731174393527161"]
#[generator = "2"]
pub struct C119;
pub type F119 = Fp<MontBackend<C119, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "5"]
#[generator = "2"]
pub struct C120;
pub type F120 = Fp<MontBackend<C120, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "11"]
#[generator = "2"]
pub struct C121;
pub type F121 = Fp<MontBackend<C121, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "13"]
#[generator = "2"]
pub struct C122;
pub type F122 = Fp<MontBackend<C122, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "17"]
#[generator = "3"]
pub struct C123;
pub type F123 = Fp<MontBackend<C123, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "19"]
#[generator = "2"]
pub struct C124;
pub type F124 = Fp<MontBackend<C124, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "23"]
#[generator = "5"]
pub struct C125;
pub type F125 = Fp<MontBackend<C125, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "29"]
#[generator = "2"]
pub struct C126;
pub type F126 = Fp<MontBackend<C126, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "37"]
#[generator = "2"]
pub struct C127;
pub type F127 = Fp<MontBackend<C127, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "41"]
#[generator = "6"]
pub struct C128;
pub type F128 = Fp<MontBackend<C128, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "43"]
#[generator = "3"]
pub struct C129;
pub type F129 = Fp<MontBackend<C129, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "61"]
#[generator = "2"]
pub struct C130;
pub type F130 = Fp<MontBackend<C130, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "257"]
#[generator = "3"]
pub struct C131;
pub type F131 = Fp<MontBackend<C131, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "65537"]
#[generator = "3"]
pub struct C132;
pub type F132 = Fp<MontBackend<C132, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "2147483647"]
#[generator = "7"]
pub struct C133;
pub type F133 = Fp<MontBackend<C133, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "2305843009213693951"]
#[generator = "37"]
pub struct C134;
pub type F134 = Fp<MontBackend<C134, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "18446744069414584321"]
#[generator = "7"]
pub struct C135;
pub type F135 = Fp<MontBackend<C135, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "618970019642690137449562111"]
#[generator = "2"]
pub struct C136;
pub type F136 = Fp<MontBackend<C136, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "170141183460469231731687303715884105727"]
#[generator = "2"]
pub struct C137;
pub type F137 = Fp<MontBackend<C137, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "57896044618658097711785492504343953926634992332820282019728792003956564819949"]
#[generator = "2"]
pub struct C138;
pub type F138 = Fp<MontBackend<C138, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "115792089237316195423570985008687907853269984665640564039457584007908834671663"]
#[generator = "2"]
pub struct C139;
pub type F139 = Fp<MontBackend<C139, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "8444461749428370424248824938781546531375899335154063827935233455917409239041"]
#[generator = "2"]
pub struct C140;
pub type F140 = Fp<MontBackend<C140, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
#[generator = "2"]
pub struct C141;
pub type F141 = Fp<MontBackend<C141, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
#[generator = "2"]
pub struct C142;
pub type F142 = Fp<MontBackend<C142, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "21888242871839275222246405745257275088696311157297823662689037894645226208583"]
#[generator = "2"]
pub struct C143;
pub type F143 = Fp<MontBackend<C143, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "2111115437357092606062206234695386632838870926408408195193685246394721360383"]
#[generator = "2"]
pub struct C144;
pub type F144 = Fp<MontBackend<C144, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177"]
#[generator = "2"]
pub struct C145;
pub type F145 = Fp<MontBackend<C145, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"]
#[generator = "2"]
pub struct C146;
pub type F146 = Fp<MontBackend<C146, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "23689546086131422960647270026588478931532074235789438036179382904450240366918592625898413220651954314430049601701829119967217713075482397330387684250506304003974227539380644310764545984368872754291732775783027172102246808696213"]
#[generator = "2"]
pub struct C147;
pub type F147 = Fp<MontBackend<C147, 12>, 12>;
#[derive(MontConfig)]
#[modulus = "39402006196394479212279040100143613805079739270465446667948293404245721771497210611412998604284687411405131287101607"]
#[generator = "2"]
pub struct C148;
pub type F148 = Fp<MontBackend<C148, 6>, 6>;
#[macro_export]
macro_rules! each_field {
    ($m:ident) => {
        $m!(0, $crate::fields::F0);
        $m!(1, $crate::fields::F1);
        $m!(2, $crate::fields::F2);
        $m!(3, $crate::fields::F3);
        $m!(4, $crate::fields::F4);
        $m!(5, $crate::fields::F5);
        $m!(6, $crate::fields::F6);
        $m!(7, $crate::fields::F7);
        $m!(8, $crate::fields::F8);
        $m!(9, $crate::fields::F9);
        $m!(10, $crate::fields::F10);
        $m!(11, $crate::fields::F11);
        $m!(12, $crate::fields::F12);
        $m!(13, $crate::fields::F13);
        $m!(14, $crate::fields::F14);
        $m!(15, $crate::fields::F15);
        $m!(16, $crate::fields::F16);
        $m!(17, $crate::fields::F17);
        $m!(18, $crate::fields::F18);
        $m!(19, $crate::fields::F19);
        $m!(20, $crate::fields::F20);
        $m!(21, $crate::fields::F21);
        $m!(22, $crate::fields::F22);
        $m!(23, $crate::fields::F23);
        $m!(24, $crate::fields::F24);
        $m!(25, $crate::fields::F25);
        $m!(26, $crate::fields::F26);
        $m!(27, $crate::fields::F27);
        $m!(28, $crate::fields::F28);
        $m!(29, $crate::fields::F29);
        $m!(30, $crate::fields::F30);
        $m!(31, $crate::fields::F31);
        $m!(32, $crate::fields::F32);
        $m!(33, $crate::fields::F33);
        $m!(34, $crate::fields::F34);
        $m!(35, $crate::fields::F35);
        $m!(36, $crate::fields::F36);
        $m!(37, $crate::fields::F37);
        $m!(38, $crate::fields::F38);
        $m!(39, $crate::fields::F39);
        $m!(40, $crate::fields::F40);
        $m!(41, $crate::fields::F41);
        $m!(42, $crate::fields::F42);
        $m!(43, $crate::fields::F43);
        $m!(44, $crate::fields::F44);
        $m!(45, $crate::fields::F45);
        $m!(46, $crate::fields::F46);
        $m!(47, $crate::fields::F47);
        $m!(48, $crate::fields::F48);
        $m!(49, $crate::fields::F49);
        $m!(50, $crate::fields::F50);
        $m!(51, $crate::fields::F51);
        $m!(52, $crate::fields::F52);
        $m!(53, $crate::fields::F53);
        $m!(54, $crate::fields::F54);
        $m!(55, $crate::fields::F55);
        $m!(56, $crate::fields::F56);
        $m!(57, $crate::fields::F57);
        $m!(58, $crate::fields::F58);
        $m!(59, $crate::fields::F59);
        $m!(60, $crate::fields::F60);
        $m!(61, $crate::fields::F61);
        $m!(62, $crate::fields::F62);
        $m!(63, $crate::fields::F63);
        $m!(64, $crate::fields::F64);
        $m!(65, $crate::fields::F65);
        $m!(66, $crate::fields::F66);
        $m!(67, $crate::fields::F67);
        $m!(68, $crate::fields::F68);
        $m!(69, $crate::fields::F69);
        $m!(70, $crate::fields::F70);
        $m!(71, $crate::fields::F71);
        $m!(72, $crate::fields::F72);
        $m!(73, $crate::fields::F73);
        $m!(74, $crate::fields::F74);
        $m!(75, $crate::fields::F75);
        $m!(76, $crate::fields::F76);
        $m!(77, $crate::fields::F77);
        $m!(78, $crate::fields::F78);
        $m!(79, $crate::fields::F79);
        $m!(80, $crate::fields::F80);
        $m!(81, $crate::fields::F81);
        $m!(82, $crate::fields::F82);
        $m!(83, $crate::fields::F83);
        $m!(84, $crate::fields::F84);
        $m!(85, $crate::fields::F85);
        $m!(86, $crate::fields::F86);
        $m!(87, $crate::fields::F87);
        $m!(88, $crate::fields::F88);
        $m!(89, $crate::fields::F89);
        $m!(90, $crate::fields::F90);
        $m!(91, $crate::fields::F91);
        $m!(92, $crate::fields::F92);
        $m!(93, $crate::fields::F93);
        $m!(94, $crate::fields::F94);
        $m!(95, $crate::fields::F95);
        $m!(96, $crate::fields::F96);
        $m!(97, $crate::fields::F97);
        $m!(98, $crate::fields::F98);
        $m!(99, $crate::fields::F99);
        $m!(100, $crate::fields::F100);
        $m!(101, $crate::fields::F101);
        $m!(102, $crate::fields::F102);
        $m!(103, $crate::fields::F103);
        $m!(104, $crate::fields::F104);
        $m!(105, $crate::fields::F105);
        $m!(106, $crate::fields::F106);
        $m!(107, $crate::fields::F107);
        $m!(108, $crate::fields::F108);
        $m!(109, $crate::fields::F109);
        $m!(110, $crate::fields::F110);
        $m!(111, $crate::fields::F111);
        $m!(112, $crate::fields::F112);
        $m!(113, $crate::fields::F113);
        $m!(114, $crate::fields::F114);
        $m!(115, $crate::fields::F115);
        $m!(116, $crate::fields::F116);
        $m!(117, $crate::fields::F117);
        $m!(118, $crate::fields::F118);
        $m!(119, $crate::fields::F119);
        $m!(120, $crate::fields::F120);
        $m!(121, $crate::fields::F121);
        $m!(122, $crate::fields::F122);
        $m!(123, $crate::fields::F123);
        $m!(124, $crate::fields::F124);
        $m!(125, $crate::fields::F125);
        $m!(126, $crate::fields::F126);
        $m!(127, $crate::fields::F127);
        $m!(128, $crate::fields::F128);
        $m!(129, $crate::fields::F129);
        $m!(130, $crate::fields::F130);
        $m!(131, $crate::fields::F131);
        $m!(132, $crate::fields::F132);
        $m!(133, $crate::fields::F133);
        $m!(134, $crate::fields::F134);
        $m!(135, $crate::fields::F135);
        $m!(136, $crate::fields::F136);
        $m!(137, $crate::fields::F137);
        $m!(138, $crate::fields::F138);
        $m!(139, $crate::fields::F139);
        $m!(140, $crate::fields::F140);
        $m!(141, $crate::fields::F141);
        $m!(142, $crate::fields::F142);
        $m!(143, $crate::fields::F143);
        $m!(144, $crate::fields::F144);
        $m!(145, $crate::fields::F145);
        $m!(146, $crate::fields::F146);
        $m!(147, $crate::fields::F147);
        $m!(148, $crate::fields::F148);
    };
}
pub const N: usize = 149;
#[macro_export]
macro_rules! some_field {
    ($m:ident) => {
        $m!(0, 2, $crate::fields::F2);
        $m!(1, 11, $crate::fields::F11);
        $m!(2, 20, $crate::fields::F20);
        $m!(3, 29, $crate::fields::F29);
        $m!(4, 38, $crate::fields::F38);
        $m!(5, 47, $crate::fields::F47);
        $m!(6, 56, $crate::fields::F56);
        $m!(7, 65, $crate::fields::F65);
        $m!(8, 74, $crate::fields::F74);
        $m!(9, 83, $crate::fields::F83);
        $m!(10, 92, $crate::fields::F92);
        $m!(11, 101, $crate::fields::F101);
        $m!(12, 110, $crate::fields::F110);
        $m!(13, 119, $crate::fields::F119);
        $m!(14, 128, $crate::fields::F128);
        $m!(15, 129, $crate::fields::F129);
        $m!(16, 130, $crate::fields::F130);
        $m!(17, 131, $crate::fields::F131);
        $m!(18, 132, $crate::fields::F132);
        $m!(19, 133, $crate::fields::F133);
        $m!(20, 134, $crate::fields::F134);
        $m!(21, 135, $crate::fields::F135);
        $m!(22, 136, $crate::fields::F136);
        $m!(23, 137, $crate::fields::F137);
        $m!(24, 138, $crate::fields::F138);
        $m!(25, 139, $crate::fields::F139);
        $m!(26, 140, $crate::fields::F140);
        $m!(27, 141, $crate::fields::F141);
        $m!(28, 142, $crate::fields::F142);
        $m!(29, 143, $crate::fields::F143);
        $m!(30, 144, $crate::fields::F144);
        $m!(31, 145, $crate::fields::F145);
        $m!(32, 146, $crate::fields::F146);
        $m!(33, 147, $crate::fields::F147);
        $m!(34, 148, $crate::fields::F148);
    };
}
pub const SOME: usize = 35;

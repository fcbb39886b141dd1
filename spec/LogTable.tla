------------------------------ MODULE LogTable ------------------------------
(* Natural logarithms of 1..700, times 10^8. *)
Ln8 == <<
  0, 69314718, 109861229, 138629436, 160943791, 179175947, 194591015, 207944154, 219722458, 230258509,
  239789527, 248490665, 256494936, 263905733, 270805020, 277258872, 283321334, 289037176, 294443898, 299573227,
  304452244, 309104245, 313549422, 317805383, 321887582, 325809654, 329583687, 333220451, 336729583, 340119738,
  343398720, 346573590, 349650756, 352636052, 355534806, 358351894, 361091791, 363758616, 366356165, 368887945,
  371357207, 373766962, 376120012, 378418963, 380666249, 382864140, 385014760, 387120101, 389182030, 391202301,
  393182563, 395124372, 397029191, 398898405, 400733319, 402535169, 404305127, 406044301, 407753744, 409434456,
  411087386, 412713439, 414313473, 415888308, 417438727, 418965474, 420469262, 421950771, 423410650, 424849524,
  426267988, 427666612, 429045944, 430406509, 431748811, 433073334, 434380542, 435670883, 436944785, 438202663,
  439444915, 440671925, 441884061, 443081680, 444265126, 445434730, 446590812, 447733681, 448863637, 449980967,
  451085951, 452178858, 453259949, 454329478, 455387689, 456434819, 457471098, 458496748, 459511985, 460517019,
  461512052, 462497281, 463472899, 464439090, 465396035, 466343909, 467282883, 468213123, 469134788, 470048037,
  470953020, 471849887, 472738782, 473619845, 474493213, 475359019, 476217393, 477068462, 477912349, 478749174,
  479579055, 480402104, 481218436, 482028157, 482831374, 483628191, 484418709, 485203026, 485981240, 486753445,
  487519732, 488280192, 489034913, 489783980, 490527478, 491265489, 491998093, 492725369, 493447393, 494164242,
  494875989, 495582706, 496284463, 496981330, 497673374, 498360662, 499043259, 499721227, 500394631, 501063529,
  501727984, 502388052, 503043792, 503695260, 504342512, 504985601, 505624581, 506259503, 506890420, 507517382,
  508140436, 508759634, 509375020, 509986643, 510594547, 511198779, 511799381, 512396398, 512989871, 513579844,
  514166356, 514749448, 515329159, 515905530, 516478597, 517048400, 517614973, 518178355, 518738581, 519295685,
  519849703, 520400669, 520948615, 521493576, 522035583, 522574667, 523110862, 523644196, 524174702, 524702407,
  525227343, 525749537, 526269019, 526785816, 527299956, 527811466, 528320373, 528826703, 529330482, 529831737,
  530330491, 530826770, 531320598, 531811999, 532300998, 532787617, 533271879, 533753808, 534233425, 534710753,
  535185813, 535658627, 536129217, 536597602, 537063803, 537527841, 537989735, 538449506, 538907173, 539362755,
  539816270, 540267738, 540717177, 541164605, 541610040, 542053500, 542495002, 542934563, 543372200, 543807931,
  544241771, 544673737, 545103845, 545532112, 545958551, 546383181, 546806014, 547227067, 547646355, 548063892,
  548479693, 548893773, 549306144, 549716823, 550125821, 550533154, 550938834, 551342875, 551745290, 552146092,
  552545294, 552942909, 553338949, 553733427, 554126355, 554517744, 554907608, 555295958, 555682806, 556068163,
  556452041, 556834450, 557215403, 557594910, 557972983, 558349631, 558724866, 559098698, 559471138, 559842196,
  560211882, 560580207, 560947180, 561312811, 561677110, 562040087, 562401751, 562762111, 563121178, 563478960,
  563835467, 564190707, 564544690, 564897424, 565248918, 565599181, 565948222, 566296048, 566642669, 566988092,
  567332327, 567675380, 568017261, 568357977, 568697536, 569035945, 569373214, 569709349, 570044357, 570378247,
  570711026, 571042702, 571373281, 571702770, 572031178, 572358510, 572684775, 573009978, 573334128, 573657230,
  573979291, 574300319, 574620319, 574939299, 575257264, 575574221, 575890177, 576205138, 576519110, 576832100,
  577144112, 577455155, 577765232, 578074352, 578382518, 578689738, 578996017, 579301361, 579605775, 579909265,
  580211838, 580513497, 580814249, 581114099, 581413053, 581711116, 582008293, 582304590, 582600011, 582894562,
  583188248, 583481074, 583773045, 584064166, 584354442, 584643878, 584932478, 585220248, 585507192, 585793315,
  586078622, 586363118, 586646806, 586929691, 587211779, 587493073, 587773578, 588053299, 588332239, 588610403,
  588887796, 589164421, 589440283, 589715387, 589989735, 590263333, 590536185, 590808294, 591079664, 591350301,
  591620206, 591889385, 592157842, 592425580, 592692603, 592958914, 593224519, 593489420, 593753621, 594017125,
  594279938, 594542061, 594803499, 595064255, 595324333, 595583737, 595842469, 596100534, 596357934, 596614674,
  596870756, 597126184, 597380961, 597635091, 597888576, 598141421, 598393628, 598645201, 598896142, 599146455,
  599396143, 599645209, 599893656, 600141488, 600388707, 600635316, 600881319, 601126717, 601371516, 601615716,
  601859321, 602102335, 602344759, 602586597, 602827852, 603068526, 603308622, 603548143, 603787092, 604025471,
  604263283, 604500531, 604737218, 604973346, 605208917, 605443935, 605678401, 605912320, 606145692, 606378521,
  606610809, 606842559, 607073773, 607304453, 607534603, 607764224, 607993320, 608221891, 608449941, 608677473,
  608904488, 609130988, 609356977, 609582456, 609807428, 610031895, 610255859, 610479323, 610702289, 610924758,
  611146734, 611368218, 611589213, 611809720, 612029742, 612249281, 612468339, 612686918, 612905021, 613122649,
  613339804, 613556489, 613772705, 613988455, 614203741, 614418563, 614632926, 614846830, 615060277, 615273269,
  615485809, 615697899, 615909539, 616120732, 616331480, 616541785, 616751649, 616961073, 617170060, 617378610,
  617586727, 617794411, 618001665, 618208491, 618414889, 618620862, 618826412, 619031541, 619236249, 619440539,
  619644413, 619847872, 620050917, 620253552, 620455776, 620657593, 620859003, 621060008, 621260610, 621460810,
  621660610, 621860012, 622059017, 622257627, 622455843, 622653667, 622851100, 623048145, 623244802, 623441073,
  623636959, 623832463, 624027585, 624222327, 624416690, 624610677, 624804287, 624997524, 625190388, 625382881,
  625575004, 625766759, 625958146, 626149168, 626339826, 626530121, 626720055, 626909628, 627098843, 627287701,
  627476202, 627664349, 627852142, 628039584, 628226675, 628413416, 628599809, 628785856, 628971557, 629156914,
  629341928, 629526600, 629710932, 629894925, 630078579, 630261898, 630444880, 630627529, 630809844, 630991828,
  631173481, 631354805, 631535800, 631716469, 631896811, 632076829, 632256524, 632435896, 632614947, 632793678,
  632972091, 633150185, 633327963, 633505425, 633682573, 633859408, 634035930, 634212142, 634388043, 634563636,
  634738921, 634913899, 635088572, 635262940, 635437004, 635610766, 635784227, 635957387, 636130248, 636302810,
  636475076, 636647045, 636818719, 636990098, 637161185, 637331979, 637502482, 637672695, 637842618, 638012254,
  638181602, 638350663, 638519440, 638687932, 638856141, 639024067, 639191711, 639359075, 639526160, 639692966,
  639859493, 640025745, 640191720, 640357420, 640522846, 640687999, 640852879, 641017488, 641181827, 641345896,
  641509696, 641673228, 641836494, 641999493, 642162227, 642324696, 642486902, 642648846, 642810527, 642971948,
  643133108, 643294009, 643454652, 643615037, 643775165, 643935037, 644094654, 644254017, 644413126, 644571982,
  644730586, 644888939, 645047042, 645204895, 645362500, 645519856, 645676966, 645833828, 645990445, 646146818,
  646302946, 646458830, 646614472, 646769873, 646925032, 647079950, 647234629, 647389070, 647543272, 647697236,
  647850964, 648004456, 648157713, 648310735, 648463524, 648616079, 648768402, 648920493, 649072353, 649223984,
  649375384, 649526556, 649677499, 649828215, 649978704, 650128967, 650279005, 650428817, 650578406, 650727771,
  650876914, 651025834, 651174533, 651323011, 651471269, 651619308, 651767127, 651914729, 652062113, 652209280,
  652356231, 652502966, 652649486, 652795792, 652941884, 653087763, 653233429, 653378884, 653524127, 653669160,
  653813982, 653958596, 654103000, 654247196, 654391185, 654534966, 654678541, 654821910, 654965074, 655108034
>>
=============================================================================

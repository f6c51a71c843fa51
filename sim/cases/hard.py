"""Puzzles with one solution each that between them need every rule."""

HARD = """
000016000020800000051000290094700100000050020000401056007020000308000000000103000
704000020108900070000008000060300902005100006009004800040000000030009100000020003
000500003007000800001030952109000000000481030043200000000050010050000600608002000
060304070000000035800000200095023001300000500040050006610700000000040000000280000
080900030006000005100000000000000290500000008031080070705032000000000000009005106
000380090005002400000700002020030060049001050003400010000009035900040006010600000
750400000300206007900000030090040008020507006004000000070000000003008501010000400
006090310020000007300800200040200000080000150000017000060005930003000080250000006
043000520200008000000005406006902000001080000000650902000010003100400000000006057
052800100000300450000000003000068301060100700010705020028097006500000008000000000
010000025000408000600000007035900000009002000104060970000000600800500000020109003
070000080000600200060002007008903000536010000000040000900000008002000910780100630
000001003000700610500030902790028000000006000160000005000600039040000500080007000
000080040000700280100009000800000150509400060004001000030178009000900000006000007
000008070207000090096040850000430000000009700010086903000000000004510200060000400
000300000300900004104702000005007000003000200069040705000000007000090100000600530
600004700009061050050009000062700003500000001830900000000000840000086009300500000
007040003401008009003020700870930000600007000000100900000090170000800004005000300
740520008000030920000000010008005200907040000000900001860000703300006500402000000
100050000000060830030009060500007091809400300000000700000000000420301600001090000
007001050900806000000020600209005706306000090000000200071060000004009010000400000
810000040300000008050000600007000002000094063200000000100920000400061000030070019
000703050005900000208050900000000079000082560000000103031000000020605000506007000
900030080800100900000020004500070001300000050007250009001300000200500000060090040
300080020010000000040906000093008000005200410000000000184000570000790000020050003
000000809001800000000040036080402090560080020010003000005004000009000701000700058
021000007300010000090054030250470600000060005000200000003090054000100060700006000
008019300005000000490350800030000940750900006000000000010506093040000000000200005
031000006006000090000460030000300040050000000000709800108040703200090010000020500
026000000830760000000000009000070001000003800005180000009401000000030004370006090
600070108070030460000000290000045010001003009005002800009106080300000000050000000
010008000300650000000000790190000006408000000000025800900400060680000070002030001
630007008800002506000000000307050009000000800010000405000800251050740000900000000
100000000000090000973102000060004008500001060000080270720508300600000900000000006
009000000300010008201040300900320600800159007002000001000000000006000425008005000
200500000890000010003670000060000200080750100017002900000200004000030000704000390
200005006000000130003400500004000003020900014000010008031200000809000600000076000
900000008080003000003000205008050600720040000000170502004000730000480009000005000
003200001008000030400050000370400000006015080000096000000000509065070000890000040
000307000000980010040000008060740000590006300037000020000200007076030090000000530
600009300002800000007006000043000050500070019001000207004000080000000900080725000
029701400800000030500060910010050000030006002700008000000103000084500000000004700
052000400380000701100600000047205800000100500005006000008030050000500090000008100
804250000001900007003000400090016870080000104000700003500020009010079000000000050
050000067080400000007030010010590000800007009030008000970004506003000100001009000
100074009090050004008000000004000010030060090070005300000000000013090075007020008
000070080000800006000100940501000604040009700070031000065000001300706002420000000
005207040079000008000850000030000000400600200096001050000083004001000000600010900
003549070000002000900700100805060000000000040006084001200000000000005089700000000
071000050506900810009000200000020100060070000004003007092810006008006400000002000
000000040000000180300108005480000020057200069000000500032600901004002000800090000
000190460006000700000000010870305000000200000000709125003500201005006040000030000
600009008820100000010002000085000200240600050900000700000900000000007000071023904
009100300800390000200000910000060500070005200030000460564008007080000050001000000
000000058008300010000094320403002070070003500100705000000106000005000040640000000
008000000000205000400300015700040000030109040900000002010590070006001080080030000
000020000050007900000008053600500000001073000043060009000000035030840000076000420
050000017010009000000150300004000201009020000200000048501030070002010003630890000
000910060001000980005060000000509400070000000090000036000190000060305100008004007
400509007000040000006037001070000010004820000050006980091005006000000000000010040
009070002030000000506084900300806007075100000000000500008000000000720003090000400
032800507500000046000000900004000860000510000007009000010300020020050000008000004
000000700000000060048070003000350000600009002090004030001200040070040800830090007
005023001001079004000000700008010002050207600307800400000100086006050000040000000
095000006406300000002006070010002090000900085007000204000001000601500400000090000
700008030900700000010020009051004000000800000340000800000070000406003051008009040
000700100634000080000000003003100078000420000019380060000000400520000800070090000
062000010503000006017280000000800000056030400001007068000000049008000300020100000
400000009000380000000412008700100300043600070050000000034800007000001000270000900
020301700000020530000004010000000000000007960805490307000000400780100600400068005
000700000090000806605000001900003000080209030000070620040010500008400000359000008
000008046000750000307000001040200080020010005700000260108000530006000020200900000
800056040000900000060040000000894000089027000000500004000000750025700080930000001
900503070000008300020004060200071000000000904350000000001000000075690001000000007
030060090080713020000000000570004238001000400000300000009800000000009001000200740
001000025030000071750040803000800040000005600400900000060003000598000010000010000
100009008802706040003040000000000003000410000000000760001200009200800500009600820
800000050700050000000902800040000100002071609300690500000705908003000000400000000
000204010020096030010000500004008050860000002050000001000307800009000000300000040
605300000008109000200850070000900302000400700300021006006000000004090020780000100
200400003070380000080001000000000007100000040009240008000702800054090300000600900
000001000032900000500000207360100900080000000904006008000030092000740000070000084
069000003000082060400000000000001000000460582000230000000100006070056900013000700
600230005001400060085000000006700000800000000007000120000007500402001700000008300
800000240000400100000190003000924005600000000020000000700000050004069001950030080
000000005700090240080700006001000000000073409000020000130006050000040063050002000
009300060080020974000580200070060000000000400000003017608000000050000049093006050
000003980000071005003200000000000614300090008004028500005000000010700260200040000
000000007300500400007046850008090300000000040070000001000000025600010000002004170
000000003000002060018030000380070005500200040004008001060080007042500000000001008
050007000600030200100060095003008000060005030040910006075000100000000007009020500
002080007600700009089006020004108000020000000000090500030010050500009000006300000
690000700200060008007000000300600000001000300500030074008150067005300000709820050
000007006704000000000900301000070260040000000900086000600000005097060000510829000
260071000000900000017006500000000056000460700700002004040000087300009000008300000
000910000500600003300002700007000600490000000010084000002030190070000005900520300
000000002002090050580001060600000200000010003391000570040080016200900700060005000
000340000001060340000001070000008000090052000003000609460000012000100007009800003
003800020050000000870300009000000032000209008000000500020700040030005600780040000
000000800060001005007082040000500938000000000800030106300020000050000094086004000
092030000300020406008000010000750000200008070030600000700000048000000009080905002
802010300900000005004030090080060000200700050007000000300020008000540700600070003
000396000800000200009000700590010000008000007170200000900030004430002008010580030
080100700000050000032000008090000000400896007000410000310000204500000090900000080
080300560006004000301008240405000090000009030070400000000700000043600000800200300
000924050000065042000700000420000000700300010003058200000570009008000020060000500
000200007800360200000001060709100020000006000002700008000030601601000040295000070
020000030009003500400900070000120000008700000000060010340050920007008000900000300
000400280007002000200600004000000001100009520800020700050040806409008000070003000
000000400000000279402000005000000000040920006010000853004065000500800000107004020
000500093800200100001003200090030060005000000200700908000000000000370050060009712
053000720000000043000009000002000006070008050000796000905000600041000207000020090
940000000600000500012390000000800000370000160080001009000506040000000736400200010
075006013040500000000903000080009700004000000000040050000800100038000007006132500
000000184060000000004590306300020900006430000900700000000802005001304008500000010
009700004802000060040002800000400000050000009016200500560007390000360000200000000
000900000000008301400000006000200008070000600080003009100700042750800000004509010
700003000008500000000020043090006870300000050040009002200400000100000060970300100
309061008620000000008004900000400800504008002000752000000103000200000104900000070
000004000900701040000030086040000060601009020002010009310046007500102000000000600
054000200000053060070420003030010800000000009027004000002900000400002000000007150
004000300900000500006097002700010800000800030002600104400000000300700089000160000
080007002094030000070640500000900000051000600406300005000000000009060008512000940
000400003000200950000050016290800000813000000000007000400090801020000000050740060
500002004900000682000470030000350401200900500050701000300000010090200000700040006
060000001024500000900000070250040090490000000000070800000625000005001200000407100
000000304200900060070000009000130000030200400604000700500040003000006020700002100
005432000000500000000018072064000000019080700000005060000024800002000030408071900
100540000007006004806701090000008600000670200000900750001000900700009013500100000
010002400000000700800100000108206000400000000090470205085000000000000097002560000
060000500045083000003706000000541700000000006000097030050400080701000040000200100
200500014019007000070000008000030607050000000730001420000600300000000070490200000
700109003600050000025430000030000047009304020000070001000000030060790000508000200
006020080010070090400000000004000900000001036002600000380000005005080070607000040
070001000601004078008050200000100000807509040000006029100060590029017000000000000
068050900340000500000000040000020009820300001005700004004500000000843000200090000
000000409000083100030520006005600000900350210000200040090000300002000000300006007
705060008080007000020000300000100806000050007400006031007000020160024000004000003
071400000300960000000000056702050000014000200800000000009800002040000061006200900
020000008150004000009610040000000070000520060300090000064000020800000010000405006
003040010060000000427600090000804059500000000000570400000009040100780000070003006
""".split()

# those that the rules alone did not complete when they were collected
STUCK = [HARD[i] for i in (
    4, 5, 13, 15, 21, 30, 34, 35, 41, 43, 45, 46, 54, 57, 58, 64, 66, 67,
    74, 75, 76, 80, 81, 82, 97, 104, 109, 110, 112, 118, 123, 140)]

//! Google's published HighwayHash test vectors (key 00..1f, data = 00,01,..,len-1, len 0..=64).
pub const V64: [u64; 65] = [
    0x907A56DE22C26E53,
    0x7EAB43AAC7CDDD78,
    0xB8D0569AB0B53D62,
    0x5C6BEFAB8A463D80,
    0xF205A46893007EDA,
    0x2B8A1668E4A94541,
    0xBD4CCC325BEFCA6F,
    0x4D02AE1738F59482,
    0xE1205108E55F3171,
    0x32D2644EC77A1584,
    0xF6E10ACDB103A90B,
    0xC3BBF4615B415C15,
    0x243CC2040063FA9C,
    0xA89A58CE65E641FF,
    0x24B031A348455A23,
    0x40793F86A449F33B,
    0xCFAB3489F97EB832,
    0x19FE67D2C8C5C0E2,
    0x04DD90A69C565CC2,
    0x75D9518E2371C504,
    0x38AD9B1141D3DD16,
    0x0264432CCD8A70E0,
    0xA9DB5A6288683390,
    0xD7B05492003F028C,
    0x205F615AEA59E51E,
    0xEEE0C89621052884,
    0x1BFC1A93A7284F4F,
    0x512175B5B70DA91D,
    0xF71F8976A0A2C639,
    0xAE093FEF1F84E3E7,
    0x22CA92B01161860F,
    0x9FC7007CCF035A68,
    0xA0C964D9ECD580FC,
    0x2C90F73CA03181FC,
    0x185CF84E5691EB9E,
    0x4FC1F5EF2752AA9B,
    0xF5B7391A5E0A33EB,
    0xB9B84B83B4E96C9C,
    0x5E42FE712A5CD9B4,
    0xA150F2F90C3F97DC,
    0x7FA522D75E2D637D,
    0x181AD0CC0DFFD32B,
    0x3889ED981E854028,
    0xFB4297E8C586EE2D,
    0x6D064A45BB28059C,
    0x90563609B3EC860C,
    0x7AA4FCE94097C666,
    0x1326BAC06B911E08,
    0xB926168D2B154F34,
    0x9919848945B1948D,
    0xA2A98FC534825EBE,
    0xE9809095213EF0B6,
    0x582E5483707BC0E9,
    0x086E9414A88A6AF5,
    0xEE86B98D20F6743D,
    0xF89B7FF609B1C0A7,
    0x4C7D9CC19E22C3E8,
    0x9A97005024562A6F,
    0x5DD41CF423E6EBEF,
    0xDF13609C0468E227,
    0x6E0DA4F64188155A,
    0xB755BA4B50D7D4A1,
    0x887A3484647479BD,
    0xAB8EEBE9BF2139A0,
    0x75542C5D4CD2A6FF,
];
pub const V128: [u128; 65] = [
    0x33565E767F093E6F0FED268F9D8FFEC7,
    0xDC291DF9EB9CDCB4D6B0A8893681E7A8,
    0x78085638DC32E8683D15AD265A16DA04,
    0xBFE69A0FD9CEDD790607621B295F0BEB,
    0x2E922AD03931920826399EB46DACE49E,
    0x193810906C63C23A3250BDC386D12ED8,
    0x7CDE576F37ED10196F476AB3CB896547,
    0xBE1F03FF9F02796C2A401FCA697171B4,
    0x695CF1C63BEC0AC2A1E96D84280552E8,
    0x1A85B98C5B5000CC142A2102F31E63B2,
    0x929E1F3B2DA4555951A1B70E26B6BC5B,
    0xBED21F22C47B7D1388990362059A415B,
    0xA818BA8CE0F9C8D4CD1F1F5F1CAF9566,
    0xB2E94C78B8DDB848A225564112FE6157,
    0xCECD1DBC025641A2BD492FEBD1CC0919,
    0xE0796C0B6E26BCD7142237A52BC4AF54,
    0x029EA3D5019F18C8414460FFD5A401AD,
    0xECB878B1169B5EA0C52A4B96C51C9962,
    0xF93A46D616F8D531D940CA8F11FBEACE,
    0x3FFDBF8DF51D7C938AC49D0AE5C0CBF5,
    0x7DCD3A6BA5EBAA46AC6D279B852D00A8,
    0x3173C398163DD9D5F11621BD93F08A56,
    0xB3123CDA411898ED0C4CE250F68CF89F,
    0x7CE274479169080E15AB97ED3D9A51CE,
    0xD0D9D98BD8AA2D77CD001E198D4845B8,
    0x7DD304F6397F7E1634F3D617A0493D79,
    0x130829166567304F5CB56890A9F4C6B6,
    0x6F828B7E3FD9748C30DA6F8B245BD1C0,
    0x93F6DA0CAC5F441CE0580349204C12C0,
    0x5FB897114FB65976F648731BA5073045,
    0x509A4918EB7E0991024F8354738A5206,
    0x52415E3A07F5D44606E7B465E8A57C29,
    0x16FC1958F9B3E4B91984DF66C1434AAA,
    0xF958B59DE5A2849D111678AFE0C6C36C,
    0xC96ED5D243658536773FBC8440FB0490,
    0xEA336A0BC1EEACE991E3DC710BB6C941,
    0xF2E94F8C828FC59E25CFE3815D7AD9D4,
    0x7479C4C8F850EC04B9FB38B83CC288F2,
    0x6E26B1C16F48DBF41D85D5C525982B8C,
    0x2134D599058B3FD08A4E55BD6060BDE7,
    0xE8052D1AE61D64232A958FF994778F36,
    0x3ACF9C87D7E8C0B989233AE6BE453233,
    0x418FB49BCA2A51404458F5E27EA9C8D5,
    0x1017F69633C861E6090301837ED12A68,
    0x339DF1AD3A4BA6E4330DD84704D49590,
    0x363B3D95E3C95EF6569363A663F2C576,
    0x2BA0E8087D4E28E9ACC8D08586B90737,
    0x8DB620A45160932E39C27A27C86D9520,
    0x6ED3561A10E47EE68E6A4AEB671A072D,
    0xD80E6E656EDE842E0011D765B1BEC74A,
    0xCE088794D7088A7D2515D62B936AC64C,
    0x264F0094EB23CCEF91621552C16E23AF,
    0xD8654807D3A310861E21880D97263480,
    0xA517E1E09D07473939D76AAF097F432D,
    0x2F51215F69F976D40F17A4F337C65A14,
    0x568C3DC4D1F13CD1A0FB5CDA12895E44,
    0xBAD5DA947E330E6993C8FC00D89C46CE,
    0x584D6EE72CBFAC2B817C07501D1A5694,
    0xF98E647683C1E0ED91D668AF73F053BF,
    0xBC4CC3DF166083D85281E1EF6B3CCF8B,
    0xFF969D000C16787BAAD61B6DBEAAEEB9,
    0x14B919BD905F1C2D4325D84FC0475879,
    0xF1F720C5A53A2B8679A176D1AA6BA6D1,
    0x3AEA94A8AD5F4BCB74BD7018022F3EF0,
    0xE0BC0571DE918FC898BB1F7198D4C4F2,
];
/// (low 128 bits, high 128 bits)
pub const V256: [(u128, u128); 65] = [
    (0xD946017313C7351FDD44482AC2C874F5, 0x41DA233145751DF4B3AEBECCB98714FF),
    (0xE20D44EF3DCAC60FEDB941BCE45F8254, 0x2073624CB275E48472651B9BCB324A47),
    (0x11C4BF1A1B0AE8733FDFF9DF24AFE454, 0x1208F6590D33B42C115169CC6922597A),
    (0x89225E7C6911D1D0480AA0D70DD1D95C, 0xE23DFBC390E1C7228EA8426B8BBB865A),
    (0xA85F9DF6AFD2929BC9CFC497212BE4DC, 0x07E4277A374D4F9B1FDA9F211DF4109E),
    (0xBF4B63BA5E460142B4B4F566A4DC85B3, 0x0F74587D388085C615F48E68CDDC1DE3),
    (0xA99CFB2784B4CEB66445C70A86ADB9B4, 0xB6526DF29A9D1170DAE29D40A0B2DB13),
    (0xA4F1F838EB8C6D37D666B1A00987AD81, 0x5754D67D062C526CE9226E07D463E030),
    (0xE6976FF3FCFF3A45F1B905B0ED768BC0, 0xD9A0AFEB371E0D334FBE518DD9D09778),
    (0xF10FBBD16424F1A180D8E4D70D3C2981, 0xC0BFE8F701B673F2CF5C2DBE9D3F0CD1),
    (0x8E9492B1FDFE38E0ADE48C50E5A262BE, 0x0E41D574DB656DCD0784B74B2FE9B838),
    (0xBA97A7DE6A1A9738A1BE77B9531807CF, 0x3E39B935C74CE8E8AF274CEF9C8E261F),
    (0x9D11CBDC39E853A015AD3802E3405857, 0x6CD9E9E3CAF4212E23EA3E993C31B225),
    (0xA367F9C1531F95A601C96F5EB1D77C36, 0x97F1000ABF3BD5D31F94A3427CDADCB8),
    (0x0E0C28FA6E21DF5D0815E91EEEFF8E41, 0x3FFD01DA1C9D73E64EAD8E62ED095374),
    (0x62C3DB018501B146C11905707842602E, 0xC884F87BD4FEC34785F5AD17FA3406C1),
    (0xF7F075D62A627BD9F51AD989A1B6CD1F, 0x1AD415C16A174D9F7E01D5F579F28A06),
    (0x3B9D4ABD3A9275B919F4CFA82CA4068E, 0x8884D509492156138000B0DDE9C010C6),
    (0x4EDAA3C5097716EE126D6C7F81AB9F5D, 0x9001AC85AA80C32DAF121573A7DD3E49),
    (0xDF864F4144E71C3D06AABEF9149155FA, 0xDE2BA54792491CB6FDBABCE860BC64DA),
    (0xA087B7328E486E65ADFC6B4035079FDB, 0xE3895C440D3CEE4446D1A9935A4623EA),
    (0x8F3024E20A06E133B5F9D31DEEA3B3DF, 0x703F1DCF9BD69749F24C38C8288FE120),
    (0x1C5D3F969BDACEA02B3C0B854794EFE3, 0x23441C5A79D0307581F16AAFA563AC2E),
    (0xBC6B8E9461D7F924418AF8C793FD3762, 0x3AA0B7BFD417CA6E776FF26A2A1A9E78),
    (0x0185FEE5B59C1B2ACD03EA2AD255A3C1, 0xBE69DD67F83B76E4D1F438D44F9773E4),
    (0x2C7B31D2A548E0AEF951A8873887A0FB, 0xA3C78EC7BE219F7244803838B6186EFA),
    (0x4B7E8997B4F63488958FF151EA0D8C08, 0xD95577556F20EEFAC78E074351C5386D),
    (0x3318F884351F578C29A917807FB05406, 0xE74393465E97AEFFDD24EA6EF6F6A7FA),
    (0x1FD0D271B09F97DA98240880935E6CCB, 0x291649F99F74781756E786472700B183),
    (0xFFDB2EFF7C596CEB1BD4954F7054C556, 0x0F037670537FC1537C6AC69A1BAB6B5B),
    (0x647CF6EBAF6332C18825E38897597498, 0x72D7632C00BFC5AB552BD903DC28C917),
    (0xB3728B20B10FB7DA6880E276601A644D, 0x8AEF14EF33452EF2D0BD12060610D16E),
    (0x42D56326A3C11289BCE38C9039A1C3FE, 0xC9B03C6BC9475A99E35595F764FCAEA9),
    (0x6C36EA75BFCE46D0F60115CBF034A6E5, 0x7EDAA2ED11007A353B17C8D382725990),
    (0xC4776801739F720C1326E959EDF9DEA2, 0x8A0DD0D90A2529AB5169500FD762F62F),
    (0xFF6BB41302DAD144935149D503D442D4, 0xE61D53619ECC2230339CB012CD9D36EC),
    (0xB8AEECA36084E1FC528BC888AA50B696, 0x02C14AAD097CEC44A158151EC0243476),
    (0x1EE65114F760873FBED688A72217C327, 0xDDF2E895631597B93F5C26B37D3002A6),
    (0xFAFC6324F4B0AB6CE7DB21CF2B0B51AD, 0xF0AD888D1E05849CB0857244C22D9C5B),
    (0x3C594A3163067DEB05519793CD4DCB00, 0x5AC86297805CB094AC75081ACF119E34),
    (0x19644DB2516B7E8409228D8C22B5779E, 0x7F785AD725E193912B92C8ABF83141A0),
    (0x5EA53C65CA03606459C42E5D46D0A74B, 0xBAE6DF143F54E9D448A9916BB635AEB4),
    (0xD53D78BCB41DA0925EB623696D03D0E3, 0x64802457632C8C11FE2348DC52F6B10D),
    (0xC6318C25717E80A143B61BB2C4B85481, 0xBD0217E035401D7C8C4A7F4D6F9C687D),
    (0xB04C4D5EB11D703A7F51CA5743824C37, 0xD66775EA215456E24D511E1ECBF6F369),
    (0x52B8E8C459FC79B339B409EEF87E45CC, 0x80F07B645EEE014944920918D1858C24),
    (0xBFA19026526836E7CE8694D1BE9AD514, 0x380C4458D696E1FE1EA4FDF6E4902A7D),
    (0x1F3B353BE501A7D7D189E18BF823A0A4, 0x7E94646F74F9180CA24F77B4E02E2884),
    (0x2C2E0AA414038D0BAFF8C635D325EC48, 0x39EC38E33B5014894ED37F611A447467),
    (0x013D3E6EBEF274CC2A2BFDAD5F83F197, 0xF15A8A5DE932037EE1563C0477726155),
    (0x10110B9BF9B1FF11D5D1F91EC8126332, 0x87BADC5728701552A175AB26541C6032),
    (0xDDA62AB61B2EEEFBC7B5A92CD8082884, 0x6B38BD5CC01F4FFB8F9882ECFEAE732F),
    (0xA3F0822DA2BF7D8BCF6EF275733D32F0, 0x0B28E3EFEBB3172D304E7435F512406A),
    (0x66AE2A819A8A8828E698F80701B2E9DB, 0xA7416170523EB5A414EA9024C9B8F2C9),
    (0x17B4DEDAE34452C13A917E87E307EDB7, 0x29CE6BFE789CDD0EF689F162E711CC70),
    (0x47CD9EAD4C0844A20EFF3AD8CB155D8E, 0xDEF3C25DF0340A5146C8E40EE6FE21EB),
    (0x32AB0D600717136D03FD86E62B82D04D, 0x138CE3F1443739B1682B0E832B857A89),
    (0x1053E0A9D9ADBFEA2F77C754C4D7F902, 0xC48A829C72DD83CA58E66368544AE70A),
    (0x31BE9E01A8C7D314F900EB19E466A09F, 0xB8C0EB0F87FFE7FB3AFEC6B8CA08F471),
    (0x53CE6877E11AA57BDB277D8FBE3C8EFB, 0xB345B56392453CC9719C94D20D9A7E7D),
    (0x6095E7B336466DC837639C3BDBA4F2C9, 0x82C988CDE5927CD53A8049791E65B88A),
    (0x20562E255BA6467E6B1FB1A714234AE4, 0xF40CE3FBE41ED7683E2B892D40F3D675),
    (0x8FC2AAEFF63D266D8EE11CB1B287C92A, 0x578AA91DE8D5687366643487E6EB9F03),
    (0x83B040BE4DEC1ADDF5B1F8266A3AEB67, 0xF4A3A447DEFED79F7FE1C8635B26FBAE),
    (0x1A422A196EDAC1F290D8E6FF6AC12475, 0xC1BDD7C4C351CFBE9E3765FE1F8EB002),
];

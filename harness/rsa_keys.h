// RSA keys made with "openssl genrsa", PKCS#1 DER: two of 2048 bits and one each of 1024 and 4096.
#ifndef RSA_KEYS_H_
#define RSA_KEYS_H_

const char kAPrivate[] =
    "308204a20201000282010100bced1cc0c396795adab93810e4a3bdd7213e224139b96d0babc1b4efdacfb8b94f61"
    "336fd92907bff7502bb32016c40d8a09a52253dae1470c96ad5c7a81f8baae314b90c83efd465fe952c7eb16e889"
    "a2f47471b4787fbaf11197247cd51b9d4781ff39e10368297966739fa5da78335960b689b4f5f05ee0809e7ec06c"
    "c899dc986cf01a58ff9d8eb338516a4c6409d5452d2a2124ce2fbd1c8bb7abf2d3348db2e0972fb18ba171ce5250"
    "b99b36778c9c36cf5bd0711aac84ffc95867d7e56e47d8936c6d171c1a9b69aef3563d67c96e5c09a0ed6f69b1c1"
    "778b94a21b9cb67f4a5af8bf1486f717cef1d91c87bb8fdb8d03fea1fe81471a5ef8dfeeff550203010001028201"
    "0001dcebb4e9e8d4b304e7a12a277b06def574b5a54382b4d4d1e183dd7ea0a03f718d3192e7870c4cc40d4e1502"
    "dabe9dac900a49139f1bac15ef716fb144915593eca8045a3926c9b81de6a35289e40aa168fc31f7d7dd5894527a"
    "555186cf7226579d92ee4958905a225cbf050569bc85e3da80f2a01f39ec485067cb11778bea8168710213cbd887"
    "43bd67c63a960a532ee67b1fb710d05f4d30c3660c4aca53903b165a7db5d1672c71211aef61396bb0c26f8071e4"
    "d62ac9b5bd0dd455af3248060c7c74ac6c34b3427f96e72ef0fb7e7d30c95bc661b25a5ee5a38df95e5be12544a5"
    "1f41057521441dc6d1ad05ac4459e24a8a65044e1332d9b595244902818100f2d5c12bb96606f06120353c25089f"
    "4cdc5a1f4832ca30cdb0f8fc3c7cb17394fa37fa4c3fe25b170a6a6fe0c1cd178bb16e0c4f84f23e2e605a1f4df0"
    "9ab19f3f81711cd6b392887c8a74d8b7c91271b806bc1620cdde7494fa43df1769c3fbecd4d75846596102140e9f"
    "64de1378901ab4246971590255e0ee36e4ef6141f902818100c72b2bf2eaaeab4d5e969be29c9167169b8a3bec59"
    "d41dda6cf7dc7e54512f0cde077771088ad562b1eca0c28930fdd3085df2effdeda2b4fce40ed2ec73523b803121"
    "3eba806c8f3618677a452609857e40d46db007e6bb2f2beb14321bc091eeffdb2d531190c616f0872d89dc0fec42"
    "572e839b2cd6428953e5f5dc363f3d0281801ff82c3a496a3937a451cd3061dfc4b925b967ace5a2e0d1f39e93f6"
    "92a3fa077ef9a7a62a32eeb315d7f56aad9906a489736783808933ce7f38de2e30a2ed077e20d877677cb4a9eb5b"
    "7f0e99038bbe14f02e0aebbeaeaec27e40393aa7ddf968b08cb93e69bdefbc1c40b7d2d4d566835d7bfdb5c27620"
    "40409c517f825a610281800140883a32b77e6432200842d8712190c6d18ba6e4b9aca65ee10005db49d75de15772"
    "acc73cf83272a3e62ed2e5f7f287aeef840ab89fb93b8dc37a17fa719de62468ed18070ea7a7d36773215427e32a"
    "f40561db257191e3ae07004d80572993b31011ace00364fb67efb19d9840915fa964a5772845008e1474f1a2bcc4"
    "910281802e4e79ac78a445691b356f9b4a9c350261bdc1e80a0ebc7eae7c7d884bf17632acdab6ef599af5df0f95"
    "84071f68484b4780488278e98acbcb99d1d56d4321449265b530e82cf757deede1fa3bd1f43bfba5048694095a4e"
    "713cb804c51ba384a92c1ac6bfc5a42fd162eae45e00d8837040fc145b1fd077763d5c96025ccbd4";

const char kAPublic[] =
    "3082010a0282010100bced1cc0c396795adab93810e4a3bdd7213e224139b96d0babc1b4efdacfb8b94f61336fd9"
    "2907bff7502bb32016c40d8a09a52253dae1470c96ad5c7a81f8baae314b90c83efd465fe952c7eb16e889a2f474"
    "71b4787fbaf11197247cd51b9d4781ff39e10368297966739fa5da78335960b689b4f5f05ee0809e7ec06cc899dc"
    "986cf01a58ff9d8eb338516a4c6409d5452d2a2124ce2fbd1c8bb7abf2d3348db2e0972fb18ba171ce5250b99b36"
    "778c9c36cf5bd0711aac84ffc95867d7e56e47d8936c6d171c1a9b69aef3563d67c96e5c09a0ed6f69b1c1778b94"
    "a21b9cb67f4a5af8bf1486f717cef1d91c87bb8fdb8d03fea1fe81471a5ef8dfeeff550203010001";

const char kBPrivate[] =
    "308204a40201000282010100e0793b54cf7b05c1d573e995f2baaac9dec3daa28f3d67688fbcce43fc99c6d88ad3"
    "ef87a3eb5424e4da0792a4648c8d5961817e4661dda5a26a2d29e450209056b9312b53ade7408e5afbcd423d0d42"
    "8448609727b4dbe95481151a530e0909d928319edd23cac9e4231ca04cf964122126195be243786828d4a7f5087e"
    "642049b00e23f043c8b137398ea3c41cbd062660bdc1a50dc6dc8c3b0680c3789817d7bae3a3a0fafb3df513a263"
    "f571081afecb4b1f065c6338eebbe79154e76a555592a19331c53a30c60f6d14e283939a73d93a54bbcf5f629a51"
    "e6b4790e0dd6b62e908b8d4ef5e0f76884d9631c8f602d5ea0eb5cd5e70df71b3ede776863ab0203010001028201"
    "004b471ca89273f5384db6f38cbfbbedee88f0316ff68d67125fb1b7928131a8c791b7054afda3bbb22bb51a7908"
    "fc574e47bd3549fd9c70524da741c21cb8ea52bd6299a4a80957d604676aae291a8449dc46d16d9f793d8e803251"
    "bb6442feb0f8cc4be7b4cd7e023aa9b3bde6527446c82b18b201ad12c20b7f555c0d1f25c03523645742514d560c"
    "bfdae033958e20c49868b272c24d28f3aa5d55e1dd4f7aee1d12157de625cc4c38fb541965af3ecf1f05a3606fad"
    "d481a65517662cee393850944e3abc4b1ce24191750e32b5d468d179e6e304780206795ee69672b9e6f01cc6a58b"
    "48e227ccaf56c2c2504b537bb53d8e0204ca36f8b9cf6cf8d20a2102818100fe8a6385dac90095063b5edebc68e7"
    "fd933e5e62053b7c6aedd7d9e637783505ecb77e4029ee4ebdbc2c6766500a7ea7f452c29b2525dd5ab6467ba672"
    "551de2489e18ddcae98aeef2c6943ecd06a17929ab56edda21e5d6fb449db6f14f3d1a1cdf402e99b6674d0713a9"
    "311f31ff197a056e51655b16d903f578921009d4e902818100e1c2b6066554f3f5f62bebca8bbf461bcf0fac910a"
    "9ffee156396a858b0e477027b902719b1daef70e17f298f3c558203e18c71b5f7712b6b178c47dfc13a8240c2a5d"
    "28ae82b806a928fb3cbaf06c83a94c59e19823bc9be0559a6f093b8fbea61451cdc06ed126641f6c64f358aa2f16"
    "f42be0acd47a1b85db57903734677302818100fa31c8f56f42178263e7c3aea7ff6dd8fffc54058123217e715eb3"
    "dde8340dda4efd65e967cdc834135c8a1e351abbb8171daa0f998a0873fbaa782bf941d4e7f17d04f02d5d35a4fd"
    "99576a0b59332ac75c954ba217a3b596b1b15c7b00ea0c5ac8ce6b7fc79cee47c07993c11801a9671923807a61f8"
    "a9438ceb00972732d10281802803baffa736478770fa97f06e949878955ad1db6366b8667841f4ff768631634fa7"
    "1b27c7b69b2c6ef30faccc884df6690b3b3f3ecc7c24a5902243b24a49a31a04e83e2db03dadf08db2fa30a82c93"
    "a98e3ee01d773816e8cc43732acfc3caa6e5331aa4e0ff712e8de348815955d0c2e0c4662e3bfae8a5f11ab41514"
    "d4c102818100b2ff36b2fb2d4617576a57a92516796c69a189cce53b7931cc62a98cc157d9676573e1ef99251bf2"
    "235b274a369f996a291bb9393165888639af0bb3f535370f68f4eb10c9f7b6adfcf7368763857bce9cd38d7894e8"
    "0cf1fbfbf9888f5baa1b5ece1254762b145a952aee89119810d9c775e22e6bac51436714656d4b1da1d2";

const char kBPublic[] =
    "3082010a0282010100e0793b54cf7b05c1d573e995f2baaac9dec3daa28f3d67688fbcce43fc99c6d88ad3ef87a3"
    "eb5424e4da0792a4648c8d5961817e4661dda5a26a2d29e450209056b9312b53ade7408e5afbcd423d0d42844860"
    "9727b4dbe95481151a530e0909d928319edd23cac9e4231ca04cf964122126195be243786828d4a7f5087e642049"
    "b00e23f043c8b137398ea3c41cbd062660bdc1a50dc6dc8c3b0680c3789817d7bae3a3a0fafb3df513a263f57108"
    "1afecb4b1f065c6338eebbe79154e76a555592a19331c53a30c60f6d14e283939a73d93a54bbcf5f629a51e6b479"
    "0e0dd6b62e908b8d4ef5e0f76884d9631c8f602d5ea0eb5cd5e70df71b3ede776863ab0203010001";

const char kSmallPrivate[] =
    "3082025b020100028181009a417513a6da36b4e9893ead352c4b3d451f142247cba34a5cd8feda2afdef3e59d1b7"
    "fdce47fe107e28477d7c46500cd0ddd8857bd40bda9c36f87f6dbe2a75fb80b38b3100ccd8cf109e1afd16e93893"
    "e127b23354f77b86d778ea06a2729a6abc235e36efd2d1c8e69f2ad061d3417916b8c3c45a58ff8edda69f088cb7"
    "a50203010001028180208879a6c163f871c3675cbeaf1e3e6817b1ec4f26913e492ab7e1582605147633ff552cc4"
    "5aceacafced2f51646c60f4de5dc0a9b0927cedd6f828d6d99d3de666c00299908aa0a318cf8fb7cdafcd872192e"
    "49346c5281b2ff36e568c76631915e1c6e9cd5e47fd10bff7ecebbadc68597b9c04aa38e86d9cb37d52193d08102"
    "4100caadda5f387ad2dabfdcdc22e855d4e8523877537547ff3ca73fedd9008e1c0a319c168b18c4d3e4c6803c28"
    "3fca2b35f2b2f59c00025c2520c683005adcf9b1024100c2d65b45a7f3872ea12a2761f384b4ae372ecff5c9c3cb"
    "339f2887763ac69aecfc453e8f289ac3d93cb546eabe08cfc03142fdf0f95aab931e13d96addf8e6350240148cde"
    "286b7ca0a6876fa86e6daa4e4524190f9849bafc1935481920b89ab0232476941e946b58a4c8afb5e9cad5ffdd9f"
    "771fca2a8212bfbcfc03ca646c25710240611346448d6ac3c6d2dbdae56ddc87dd6977347c44fbfda989ba3acc08"
    "7addc407e9444335baeeabb518a8eddaa32f479603c7dca190b07dcb759e5525a596a50240333e5023b0a2dc7de3"
    "01bdb7850e2415d6875c5078b4b32e28040961a306000f37f9c284231c6629e116cfabbbce746d0557b438dea2a6"
    "62a6fd622c93543284";

const char kSmallPublic[] =
    "308189028181009a417513a6da36b4e9893ead352c4b3d451f142247cba34a5cd8feda2afdef3e59d1b7fdce47fe"
    "107e28477d7c46500cd0ddd8857bd40bda9c36f87f6dbe2a75fb80b38b3100ccd8cf109e1afd16e93893e127b233"
    "54f77b86d778ea06a2729a6abc235e36efd2d1c8e69f2ad061d3417916b8c3c45a58ff8edda69f088cb7a5020301"
    "0001";

// 1536 bits
const char kMediumPrivate[] =
    "3082037c0201000281c100aca186f80fe5e7cfcf8677b4df52e3cd07731c349f0a9c655fcb4ea1b1751f0d584a4a"
    "bc6fd1a9f282f23263d28050f20951fddd59203bc40cee37928a44c7e893e9326b9a889dce1d5a21f9ae041e63dd"
    "8685c827d7869836204dc9d1941ad8f90bc09a2996c7521755e9faa3fcdef2ca952a4604a40a76336ddce0d8d3b9"
    "81d89f719f8695d6b487ac55e85fd7ceac13a9d18b818ac2a168fba8c85bb5b9cfe52d76ac7b4a7522a6da4eab31"
    "95db098c075bc80bc9838ef0448172bf5939c502030100010281c100978a2beaf239c5a67cebf385494d803f693c"
    "b913d051063d4f3c2f486d78fccb4027e73747896b804146cec925ee122085e1fdd222fcd2ba2507b0ace8c7bc1d"
    "044a7f424a2387337a3cb6fa70b198e3dd80cb4b8afdfd5efc949af4810f5c088e7124fa8d0c9c3ae757620933fb"
    "5f22b7465d9cd43319c2274ee5fe382a0fc616deaa04abab0b7d0d92a1161addf5a6347594f9b654eaf0751dc644"
    "7a1144f7dac2307b1801ba93a1511387992b39ba8d356b47a22b1f079d64de92fc3f7fb9026100d2c9afe1513798"
    "a4116efce38000f1cc9cb2a5a4f293e9d5a18da3903f6c1efb5e4e23a1a276420444f1dbcc2a55d540468d2f915a"
    "7323514f99d2ab72f583e7731f7e8654848c683a5d94d542d75908073b59a0ac8f65f9df081a125705f0bb026100"
    "d1a8a7a075bb30d15fe503f5c43f562edd0fd29146404d3ea8d08bb40d8006515ed2b3d0f53890e7dc7d72e3a6cf"
    "3f85f98a454c7ca8fe4b169f4aa5008158ec5f1b5de4c5a59e4d870829a84f41ff39cbda2ef7d07d7d6939ba3a5c"
    "cef2177f02603cc75d087a13aed6b81429a52b969a222698b87c8c59ac16266421e288f71323e5f85ffbce4d8d11"
    "9013b10df8b3112f5c687f6bc909e408210cb89b2925b3e7fbe0fbe99ddb2e652b572a8027aad2882715aced5074"
    "74b20ce658262ba391db026026142ab5d30c37969f8319d0065fb68876700c3f8471e355b115877a214592602f07"
    "b7cf08eac82ec476286abe7e3fbc56914d7ad1dd63aa41a696c9172966fc2f5dea14c5ed09ae6d0b077de13f4c5a"
    "b3f2a1bb32abc81e5774c26adecf4b83026005c0554a640e9e616957c8ecad734573044cf900398b1d7ee089bd44"
    "4072afa83eeffd74e9662b809cb0d4f1b393515347e987a809a6085e942d3ad012bd3e590751a4d107a24eecfd82"
    "681f97a82b34b450523167e391bca163eb810b305ee1";

const char kMediumPublic[] =
    "3081c90281c100aca186f80fe5e7cfcf8677b4df52e3cd07731c349f0a9c655fcb4ea1b1751f0d584a4abc6fd1a9"
    "f282f23263d28050f20951fddd59203bc40cee37928a44c7e893e9326b9a889dce1d5a21f9ae041e63dd8685c827"
    "d7869836204dc9d1941ad8f90bc09a2996c7521755e9faa3fcdef2ca952a4604a40a76336ddce0d8d3b981d89f71"
    "9f8695d6b487ac55e85fd7ceac13a9d18b818ac2a168fba8c85bb5b9cfe52d76ac7b4a7522a6da4eab3195db098c"
    "075bc80bc9838ef0448172bf5939c50203010001";

const char kLargePrivate[] =
    "308209290201000282020100d4a0a6fe37ee412e345b4ed9352a5e4e30c5065ac6a0eecb9532910179ab99ad8e5d"
    "2e8391b4c4030db16f446ca00bc213eb32948b7d2f4963c8aaacaf3ba2aedcca56af24e3d8a80cd27a9f3d6a8ca4"
    "89b0d71c1a0a48a19d89494e005d73c57ec646e833613bc63ef70f13dba010ead66970bb68ad4c010077cc95e1f8"
    "1a21893476b3dd88333be93c8c61916565b643ce847a84837dc9a342ca036bac97ab820e3f303560769046be4a04"
    "da4aa54662156193f3f528750be464ff4c486d0da8a105603153298e22cb0f7e8a8b990ef893985f2ed3287a2d31"
    "b9fca6861ba838601ec0e0f9f1e2a0ed10182cae5be3bd8b3d81672500910431fbb1b4ebcbb7ff7606a260b68216"
    "b3d97b8f94c7c6ab0e4ec4f45ff8245cd2ef070768539482d5fc1c82db3c2dc2b2e5c9cf28bbd449d7822a92a94b"
    "c6894436645b204c325b1bf70d5f7c8d6d91277630364e84983e1db838f01407cd31041942f0fc9fad0875792bd9"
    "cb9ccb8f5ce13adf3cacaa9b3d5027f1f7d9a65b14e25e516a9b73e3429183b65d0501c542e85596e1d670feb0c5"
    "1ca57ef8e624ab746b8e1ceee734b0dfb08cd9f183b409245c34894b82a8b9c297dbc64d654868239c57a4f4763d"
    "1d627ccd7d78dc9474847e3af81926169068e16b8f0abb75ac99898fd6751f262ab1aaea5ea17eadaf2f68d8d40e"
    "83ed1f26797e5ea3a746dad9d253172e41b50203010001028202001abf9512710dcf745510d18400acb24d6ad436"
    "5ef012e9c7819ee96002a2e443d19f864cf5e5042d9028eca2f27955d155f926154ad0f64468c1a33af31670fa47"
    "7b4ad960ae2b20c4f02b8de1c78826e0cd76da29aa7685a2505580f309ce991f40294667c4492540e18aab885b04"
    "15cee057d6b3aded5c48e7493ce7bef2e69a2097f83b9bb93a45b6a0c05b6ea29381c736a2450e57a228a02bd2af"
    "5678841269e1681aa6e67372fad84bf0fc27fb8936405ec0f76bde019f7b57248d0def0472313f6f25139ab664ce"
    "2fb0952c2d9676d6d9ce85b0d761dd1a151f0bcae9e821ab6cbf40a23dccd9d5c6fcc3f87a576b6f52da9b6c8d51"
    "b64a000a8f09430332e2e22ca5481d832eced292fd83e5703420a34fc82253cd300cd7b9f156dda296fc8f3e2cf7"
    "e95d81646ab72b1ef464583a6f5f98e21b303175761291b40c1c8d96af6776d3f7ec7e149fadfe98005dd6014359"
    "88be8d293ab9e7e479e56b1f17c7f0a17000f00ef60e56cd42485923d34a02b226a3f133596fc25081641bfb4c22"
    "9a1237ced09e587efb05d27c9b6f39ba470a0d49686ed6986135f880a5b815c6f2f89bd885d8fbe73e6a8ad247d1"
    "12e2a4b088b4e616d8b603748d31c063b5cf961dcb80ef2655efa4f5a67626b2267908bea2d87a8a27a5cba447d5"
    "de9b82f1b84febd9aaad12bb9af48528c57248e01de39fa3a6f262655b5b2dde110282010100ec705cc1635df22b"
    "49e082f8f663096df0256ab18a911fde3a0c2e6268e26211a677625a728748ff238adb844c8a8edff38f9bffff6c"
    "d2b00396314afbdab9c1187710ba68b859f2747dfa7da7c1b9d23259c7f92749d101e8ae0fbf6edf9ef9e9ccce6c"
    "7aec343448e1df0c6be89499b69d82b309ee50f222c69193f5d9fdb1ebf327b75b874974a80c24ad80bc8d6fd731"
    "e984ddc25a2dea1e72890cba8e6b43f22bb6f6831605055fcf0fc078d54a3bceb53a12df863fe3c6cec787266774"
    "2e0ec96d6df400f2361a4fafa45e4ae8d16bb0bd0416623eddf9b86474cdd4a8d4ea71e920a12aba34d915b8dd4b"
    "8c139da36cf5242059c08ab8fda74d2b32f90282010100e637faabf4200a8fd9ceed85b79ea328478cec2bef9c73"
    "f43fbe486374b0506c340c5280a215124639a57c9888149381aa8bc4f89a5e553ce6be7c23ff9fabdf60e528c0c5"
    "343810e3efd686bfafc9c22337d77fddb1eb4b9278c7d4bef50402e2b658c9a235c5da4c166b96179b303f184c56"
    "686499ee3784dded61e4dbe5e71530c499bd12ef3f12574067cf4117cdc3b1cce6366b25fc4e428b26ddf11a2a63"
    "fc38713c1a6a76c005b0744c156d468a69d36617ce05d28300a1e66bb113e7dce457b30c5126a1f8b3ddd09bb565"
    "b92fcebf66a788bcd844a8ab0b9d29d71b17e850dc0de1f90c6785eb9c49c9d63fc942c2cc16e58233342fedf844"
    "40b79d02820101008f9f8998a7c5af8f8026f3284c72c88d91ad08eca42197dc2422b6226d57e6fe95c23b6a79db"
    "9809f40b2b6168255ab8cb78d6e860be381557786aa503ec4f9dee409556c6ba0559744dfa554e0c2dd673637a47"
    "ed07b80092d8f913ee43c48c46eb74110d72621bc891fc2dcd76d09db702631c62d1f335c2ce202c62d1727c1bb9"
    "eecc40bb2371cb8ae4d4c838c129c8ecb6cf50edf85d9fb3b31b7131f9c54ad6d69b238f6956cf76ed8ec1fa2486"
    "1d62694fc79b242fb72b52fc7d2a64f97be8db8eaf95e2e53edc28bfa6f6e84618c073f1bd83e35610fcda779b44"
    "5503e1a23063cec057f618982dcbc811561bac4c53a96db28112a6b1ccd34ddb09f1028201006abe5bf12cd14a74"
    "668646a5707d12a3938168e3fa46ad90fb994bd12982b2d768cea9d650d0ba576b552acf42915fcf8877240e2ced"
    "3e526d9eb6caae34a7a97c30e4d374dc807e7c617133ab5f638a2b7031f06ca79934c2265469755cffce22b66fb6"
    "960a9ec157f431503783d23bff152e1f5b3df03137defab92037418302d548e30bc2e2c178cc91e550389b43e1cf"
    "e7f47a18f654e5287f82b6f79aad3b0cf052b88e7afcb28e30c1cba147b8a466eb08f452a76a732970e7f8d8f324"
    "d7cbdc49fd9506f7a4ec2916178c652d1758a270838fa81812c5ae01458ee7d8fd1dcf9828abb5212642f6fad14f"
    "cf9265cc19ac2d959ee804f3904043cd4a150282010100af208e607f292cee8903f3b86555467bf079bf6575bae7"
    "58e40f7c7e2208d898c4ad1a94e9bb7e577dc83b91ac1b54bea4b5318d5497d6fc25b896c8be1a2213c2fdbbec67"
    "50a1e433d30fb625855d97d3746b10913e52d650a5e9a6547ecf711bb1000254a25351f8e4d0923030c873920576"
    "78b874666e6e3aa18e368a63d39e706ede01d933bc1da57aa2150a0a528db64c9d603e31319aec4e8dcae5336f26"
    "d0506cdaf4bf3c0a605c370ba6d3189398f8430a952ee90af46d2b4c7bdf8c0a2acdab8d1475c27a344ddede8637"
    "34d2dccf9b394c5024e2dd7fb5725cf01abd99bf9c77b0a4814b2d6c2a29336fbfbe38592978eeb22cad2728c0e8"
    "57e964";

const char kLargePublic[] =
    "3082020a0282020100d4a0a6fe37ee412e345b4ed9352a5e4e30c5065ac6a0eecb9532910179ab99ad8e5d2e8391"
    "b4c4030db16f446ca00bc213eb32948b7d2f4963c8aaacaf3ba2aedcca56af24e3d8a80cd27a9f3d6a8ca489b0d7"
    "1c1a0a48a19d89494e005d73c57ec646e833613bc63ef70f13dba010ead66970bb68ad4c010077cc95e1f81a2189"
    "3476b3dd88333be93c8c61916565b643ce847a84837dc9a342ca036bac97ab820e3f303560769046be4a04da4aa5"
    "4662156193f3f528750be464ff4c486d0da8a105603153298e22cb0f7e8a8b990ef893985f2ed3287a2d31b9fca6"
    "861ba838601ec0e0f9f1e2a0ed10182cae5be3bd8b3d81672500910431fbb1b4ebcbb7ff7606a260b68216b3d97b"
    "8f94c7c6ab0e4ec4f45ff8245cd2ef070768539482d5fc1c82db3c2dc2b2e5c9cf28bbd449d7822a92a94bc68944"
    "36645b204c325b1bf70d5f7c8d6d91277630364e84983e1db838f01407cd31041942f0fc9fad0875792bd9cb9ccb"
    "8f5ce13adf3cacaa9b3d5027f1f7d9a65b14e25e516a9b73e3429183b65d0501c542e85596e1d670feb0c51ca57e"
    "f8e624ab746b8e1ceee734b0dfb08cd9f183b409245c34894b82a8b9c297dbc64d654868239c57a4f4763d1d627c"
    "cd7d78dc9474847e3af81926169068e16b8f0abb75ac99898fd6751f262ab1aaea5ea17eadaf2f68d8d40e83ed1f"
    "26797e5ea3a746dad9d253172e41b50203010001";

#endif

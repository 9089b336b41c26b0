"""Fixed asymmetric key material (concrete; the symbolic part is everything else)."""
EC2 = {
    'P256': [
        (bytes.fromhex('009fcdd93ba8b4bcabe912975ff9cc1082b07831967194e255ab3bd0c0515dab'),
         bytes.fromhex('b81d8be3d4595e5acd9e8fa65855eb44938b96e0cea2339bd41d153a0b216445'),
         bytes.fromhex('5889f6840fc436d4eeccca708965d96f5ee23887c2e7577d6c58bac73c8073c4')),
        (bytes.fromhex('000c13cda574ea20a4b14d07050d332d799a57f14b2412a0c1e342d7654275d9'),
         bytes.fromhex('00bf08897dfa9de3817f6da84f98d195a5b1feeb05ff8d69caa6c8b966169041'),
         bytes.fromhex('e184bd31a415c743a0c76d7726f9ee4f520b4fd40e6298e146dfdeddfa2d5fd7')),
        (bytes.fromhex('00c2d39656d6d2ed11f347da84bbffcf749d143a3688e51ba236223d7e88f319'),
         bytes.fromhex('0032d8167afbd9f73313d9744e055874328a4addde21a051d299a14243983d58'),
         bytes.fromhex('0996e656ea19861b8138ff24eb8325914954d291a4455b6105b17d6ddb27f0a9')),
    ],
    'P384': [
        (bytes.fromhex('00824a3942577e911ad7a92c122d5db5eaedc2b963326f158b0c98729758831f06a9df506ff2c30fb243d6eea999c6af'),
         bytes.fromhex('52e9bf1c39d7c38a9af758e158074159813b84830dd0be20a01e449b16985dd6b85c770db2ebe9c67747a68f46b38b72'),
         bytes.fromhex('447b008d3cc729b5b5c3b4cb893e123ad0ac0e0869aec44f60203eee51b566c6c18fa4c363f952f1e3cff46dbfdbbea7')),
        (bytes.fromhex('00ee58d5a3637a44137d71ba719394613f8886cbdd00fa098af3d543eaccd764b19f1cd6ea469d4b600b70d4233739e9'),
         bytes.fromhex('b67c6102ab6545d5367ee78103e625a34a3b4c000d82eeb96368df644eb5772abd8297de1eeae299c429805af5ce5545'),
         bytes.fromhex('de606bfa388f015fde1df49b7001e49de0568446cf09bba3dbcd7003e07b9c33321d442fa8aca442443e1d70c6a5200c')),
        (bytes.fromhex('0083153282e80cf96d4c02b3deb027cac6469ae1a45aaa00766270a755e7ed7cfbd34fe6e926ee3734b5664ea1871bbc'),
         bytes.fromhex('005f8a55a978a33c03ca6b547f9c090181705e01a95d80d051da247d2e29a575e406e7b0e6cfca0ca0175aa8f7cda696'),
         bytes.fromhex('90a1d20b48698b1f06ce42ae699932713b49aaa96cb109cecc8eed9ed93db47358d76ee02e0d73166bff2008fb137248')),
    ],
    'P521': [
        (bytes.fromhex('0000e689a2a4e94a011934aa455a71e16d377956ebaf0dd06d4653b6894a0077e2ef93c7fb94ef5fce890bf51df59b72a0c72005be2e26f6e21048acc8bafe394c4d'),
         bytes.fromhex('015b214c055d8eb1a622709cccd804825538a8899c93ed6190de5a84f963fa3f82d2bb42f20b43d2eddb7963b64f6513b34e701c0d803fe3ae2e2a62b8035e956bbe'),
         bytes.fromhex('016bbd4033d87b3cec21dbb1ed3de5c613191ef10b7f831a95ce1b62e53c9d48676ec4f9e2d6521966ea55f87e08128dea927cfaf172217dd8e9e5219fd33f967673')),
        (bytes.fromhex('000046c68628f754155b83cf9218a3a0857a9c21d977fec218e78bfe4b3132290cfaf7e71aaa0172d99691a33898fbbddee8d7b41add39efd75322776b083210d4f4'),
         bytes.fromhex('0023831e7dcdc6716a5d58c890798241fe5bdb6fa59c5387a69e86dfdadffa413cf2b44b980498460a6e383a643bf23bda277d356efeb893e0d21bd5a8ba40b6ee91'),
         bytes.fromhex('00fb5c9d446074c7e4b5e8a71bb5d786dfea9fa858c6a7d1e9bc2480a49fa5505e2de3de75e046fb2547b54a4b7b167ffac820af9ffd81d333e0bddf0cb45189951b')),
        (bytes.fromhex('00bd3ca77d4f0bc0f6891f2cad0c78d583ba135ae8dd81ab46644a8e23293921a85c306cca0b4b6b9a69888d0944195b3ee8275ba48baeb25eda90a4d783d2c30940'),
         bytes.fromhex('0000ba77150c6e6c3d4a00eb9e269e40e5ac86212335813abff86f8d58324eedb9720f752be098346e3228cebe325c1319c179c14882895d580fdf3c7011065bcacc'),
         bytes.fromhex('0034ab9b0d28dda9ab6d3a9fcd6c2dc1387274a709c39fd7a52c81e097ec2b423031bda85c83c77c327b328aef7579636ca157e82c23a9aab0dcce99ed9a8b85c26f')),
    ],
    'SECP256K1': [
        (bytes.fromhex('001ea0ea75d9de5a2df44b2675ee6ec60bd596ef591ca5ee33d437f1cfe2e5a3'),
         bytes.fromhex('9c59c3d7ac6f94b824fd68282f5d37b0a5ff5134bd06b13b494c43419b3401c9'),
         bytes.fromhex('0263e20c40404abfea2289835129e1f425ed840b115bcb89f6ca227ac4745765')),
        (bytes.fromhex('00fa58f6ed4469d060c2523a659a58f78273d8eb7ee93eb69721ff3d0e9e3d11'),
         bytes.fromhex('515f9ae1de5bd1bf793210d4b7c6772f5db53e4ed4b55aa461937b93821febf5'),
         bytes.fromhex('459a2436671a519ed96cd3afb5e10d3e52ec64a293ba3ca3ed6253d79948028b')),
        (bytes.fromhex('00a05d958651b8e73189729a18e96f6ead4ac4951c35ee835f7c02622162d37b'),
         bytes.fromhex('0068aab49b984d472ea4f8d354a8b17f37b23690dcbe96973ab868db1a7197f0'),
         bytes.fromhex('04e22fb1f86a4947f2882a73811d79f5c2b6e600d94283f791a8cc3ee89118a7')),
    ],
}
OKP = {
    'Ed25519': [
        (bytes.fromhex('6d574110af686ac7dba1b4bdcc8cf820f8d9551cf82ff4aef5ca7f376e0c8e04'), bytes.fromhex('8f226d5ae281d5ddedce9afd4bcb7a3799fdee6e40d1927f1f337634cfc574c4')),
        (bytes.fromhex('292e82e77d1ea31646390dcaad7b3dc427cd61765b061412d75e51f216e3693d'), bytes.fromhex('a93d88ed04acd149e27ae2993563dad3c9b0e568e997e0bdac42b4277e21e366')),
    ],
    'Ed448': [
        (bytes.fromhex('ccd174a94a97a45d22055700c8de0b30abf7cf60e067f4891831a65f13f71ebdd3eacb9d7e3117350ca0bde9e6547009bf99cd2cc3041f11ce'), bytes.fromhex('f939c09ae6f9e1836b04ca6bb77263ad5678421c44969552147397fd2eb0b01d37c1f0ffc29b2cbe87ccd6ab249a9084350494490967e2cd80')),
        (bytes.fromhex('4c0151b26ed358defdce0b6f2270f12d279ca4d86500b0310c2057f66999ed120fcb3157d9f3efa940b1221491d951ffbf4c388368f54936aa'), bytes.fromhex('6f802712f323b17b529a11632a87d1efb592c52b2bf3dab055af849dbdcf471f960ee61379ba655337c5ed5bcd7acd0def695e2ec7bc911700')),
    ],
    'X25519': [
        (bytes.fromhex('e491489c01b5f48d7aa62380842520804096027ab890ba0fe1b048066883b806'), bytes.fromhex('8e5b1648721eaa5967a090d7b95e94de5007b782b0601126e315d1c01c4ffc34')),
        (bytes.fromhex('1ac171975efd0b0e8e3064d3f8c22b69e32db98e860ad2e6c8890d392739980a'), bytes.fromhex('8e1b55c92e9f1fe1f819604ab19e3887f1504eac4a32381ec98c414b7dfa2b45')),
    ],
    'X448': [
        (bytes.fromhex('c7b232e8f801b3955fc87ffa85e6ae6c30cfbc7683560251403332fa52158b0f253c8a98e77330fc3da75c4a1b6327af8a167d96c2d1cd32'), bytes.fromhex('3b8aec542584b11deb20ac7aecf931c547a15f2f79dde1e912d14af286f3b688a04ebffe5966407c74239ee3a855f29744a1af0a54f54672')),
        (bytes.fromhex('cedd6c22266e125f78c8c72bbe09a896711690cbd9ee59a831f7b34ab2027f7f7ca26b7a56d01741b8b7511fba5834817a4216350ba4ff79'), bytes.fromhex('e01fb0272e9bf9008281dd13a2e75910e53591d37b2e37d6f8ca981e59b4c13a0561a1661106cb85ec48ebdf062132f15c41124c478a6500')),
    ],
}
RSA = [
    dict(
        n=bytes.fromhex('b92052d708eee85261498b075dc321fbdf26bb752c99326a58ee5126899a498aa4944fbeb9bfa72094d17edd79a5bf53d73aa1bce8466110a48ab7aefa14661d806b8c358950ee3aedcc73613d61463a0c0391f63ad79b9ad8927c9e65eccf9842ec1e20f92286ce84b697d53062e9683c14fa159158633bb0b5772fd458665463d13cd7fb77226b8b4838277951931cdc0f182c311af32a99264fc24bc3c28724b9c7d4772e42286cbb7561458c48a4a782165475a7b0dddae9b0f9abe5fbf6ebb1d43abe55c88f6346187607a0f1cb98e79b3c6a72d1bec3bb020970159ae7a97e17b1804d4a06266b4baf04c113335413cfc1416ff69a5dd28cb4418cc007'),
        e=bytes.fromhex('010001'),
        d=bytes.fromhex('1e088742a3e18a66e454a2385436f62f9eb0c719b288ba069f1dd94ed20fbf483da762abe906402eb22603447004a5490c9cfcf9f63430c6c542f74617ae8685d911d997228b5d7d7445c6742b43e438ece9095d8931f5bdc5ce8cbc1a8209886f56fa13a9b20c6d1057c518778c9c7190c9c06c0e53e8bec4237478c47a2b98d4e0df23a318092af0d2df4287727aeb6fa09bac5928fb8e84240a55c38ce9d9017a7b1ff5b1954cdbade9ba3ae938e45f779b9566a6140352d4de1a22e1ade66b01201a7e2496749fbdaa638e61bb5ed2f35e1308000b136a79b426240ea1953553b41809d59fd9614f6ae9c3378f4642d85567d0acd3f6627571ecb71b8771'),
        p=bytes.fromhex('e54fbc257366d08716a3baa1b33ea34c89ac45ea63035ec9d59d97b1b1e2751c0a820d24cdecf383cd4fe61dc757c6c2eabc7630ea28679cf260062fce3a6f6c8f0b772d16baa93ddbe2961b2c1ea734a0a37a48f44ea825183543cae9faafc375bce73bc9ea44a24b5bd0228f8d0d18974075172a051ddd17b99346b10c6077'),
        q=bytes.fromhex('ceac1aa5a907bce41b51709021584eef782cd8f7c1eece784b908e934a60f219d800fc5706de6d72b6bba933399cc5f7bc652d2695cd9459cdfab1be3149fb8fac62ffbfac2dc638a1b1e12b1289383fc29057b5e7941006cb31aa09e278281f5c54fe458ce69508d873f13265394b081c48b9486ae9780891366ca40a3590f1'),
        dp=bytes.fromhex('0d18bbb72bdb2067c6bc3d2985123bc3604d8d84b078fdcdeb3c5ff08f274ee6f616ad677fb75bc51851cae3c281d9e14204d77f3db0671288a9415133a714bc0f836920131f40113f60b69000ba1374a7040f34e17728954dc7a5028ed0797f615713a1cf8b68b61835bb326e1e713409576e188f96d138d2650feb46ab5d4b'),
        dq=bytes.fromhex('3d6fd7f40b0d6bcf7b777838c050da1641e9430e53ae43de6ac82c3a08d04ce7f5d8452b31b5895fa286a2c3c18aa32703f027bde2a65c455dfffa3a89b86e79c54b20afbfe553999e279cc20b1e938410b88bfa5d3f1c8c8876d90f5b2d50f011a88a75ee6ed53aeded7973fbb74e60b8d7bd8c938b97cd242dc399f816f861'),
        qinv=bytes.fromhex('d55e25f47b8eabc63ed6adfd90f734793f608072e5fa0453948b146202ada5efc054e5cdc53c239d865c240881e7135a9af4a07a4c9acb1cda2876097d59cd0fee5705eacdb4fdf211b4fb4965adf07f5116e5844d27df6b0bd37244e0d5b4676a5e680cedf14d047fdd1d0fccc6f79706578a7c1ab48f2dd72e11b6d2158a05'),
    ),
    dict(
        n=bytes.fromhex('b0b130d8b1351ba48aeca5dbc3eaa0fdc6924bf7f55a78b18262cb1b3d034ba55e858a36afa1edbb295fb134d362f0fd106153efb1c5eb21dd320a231f7c65948d512eb183a08a9b06d8c9fe387c84bd2eb4e30391afad8a73f80e54472a8fda967c2db9976bcde9771e12110bb7ff4a69a208bef012f4a84e928504bdde180235c27e475ae87bf7737fd645fcae25fea8176cc7881f452dfb5866601d446ec80f5161143341c2ee8378b8f94709a08311298fe0f280ef6e8d2c5aac81dc92f9ff10fed7b0266cf2cb1dbcc69e84182aaa6b84264e02ee6f1015213a4d7214d6c8f135176e465f06ac3ad60bfd77728c55e92d0edacd1337a150e4511a75586d'),
        e=bytes.fromhex('010001'),
        d=bytes.fromhex('0b764e9976e571eec3cb3ad2a2478d17c4d3142cd3fdca7b2727e6176766fd0a6afbe34dbb294f274bec601ba89addf4fa6d55e92d95fb8f76d31a79d1635bea74d2b3f4bdc2ec5f7d9b5bc84fcf7af181b195bf533d3ffb9fe5b79a8927e763f471753cc29f0dfc8e0fee77880b1556d9ded6c4b0bbf7c7aa2ca03d931395442aadfb8480266dbfd4969ce95dd7df6250a8f4b9525b4231d59855cf377ee21a6a5f3f16af672a89aeb63b6c6347448a6e3780b6a943603c91efaae08ec08a3a246f1c454f8dd50b9957f63627195e48b17ac3666bb59eded049ca5a186f30fef7f80a2afbf0aa81f75295f7fe34cc91d2ed005ec32b3305b4810d5d0c1c11'),
        p=bytes.fromhex('dcbd6000fa42a91841007b3e68382317145ed7ff20a61c6fb394c112faad4c9d847781b25747fece3219c9e665801ebb0eaf79e0512a3f21cd9a6572c83277f7e4bfde23f2973beca53355938d17b6bf42cd5d51573f0892097b024063aa2cb6aafc3f08329729164f464879ad103df94b93d90acf703eb37f5974ec28ee5511'),
        q=bytes.fromhex('ccea9835056d1b70f2ef6ff3869f77f7f3efdc7da7bf7dd6b91cf8cdb5d601431dacfc10e22933b2576e907fb0bb690adf20466c35cad4a376fcf43f9d3ee5ed20174762ecda9d0cb6c4949840efa288bc3143a9f01f335c1cee66965f96574ea5ee39de6b046e59215c5ad5ea9bf56a0e41ffa02f1927748a296bee25245d9d'),
        dp=bytes.fromhex('429792edd891e1a7627cbdb16f0978748efda9d5dac8a20d84b49ca6981f4ddcbb48be44ca15fb25c3718a3a4a66a35eb52874f11a2b4f8e68136b057ca5d51160de0d2af51570cb8c6ef723234e8320220c0859f0a32077c60a68fc79d4add691b0b56748b3d77e567e12813a978acab96529f61bec75cdfade46eab3d26ab1'),
        dq=bytes.fromhex('50fd0f373573cffaae297007c1d7592508a66e70c351edbc65e14b7c923788bc2c08687f8bc359094d81075f504c61d1c82a0b6b4d3f63175039dd971ee0f322eb220836d301fc3c402825ca9f2f96ff8fd1b0ba838af153a0a3a0ac220f5b665c327170b4bf4595b897b5d70228adb042fe56b7caa598707902b203a76e5e09'),
        qinv=bytes.fromhex('d616acabd6d5bc57580c21f6740ef36c63e0b2e172a94b2e1360637fa27813dac8218a6801ea4052c3aff1f3cebd473970ee258685df1a66193d4f915741b1f7ae72d4b0684750418f95226cc0023f3a7547d534f1b4471e687fb2fa8400f6c37d11ee6a42925e34306bad7299204ffb07cdfee1705815bf2c87ca3cbd9bf47d'),
    ),
]

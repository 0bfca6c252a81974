"""Primes p = 3 (mod 4) with 2p-1 prime: a quarter of all bases are strong liars for p(2p-1), the most an odd composite
(other than 9) has.  (bits, p)"""
LIARS = [
    (20, 0xe7d93),
    (32, 0xd3d1ee03),
    (40, 0xd475674213),
    (48, 0xd0c18c5416e3),
    (64, 0xdff63c0179e583a3),
    (80, 0xcaba64d94a3545807b7f),
    (100, 0xf7476189975a3adb3254aaa1b),
    (128, 0xe7d9849f3c94f8e0d974b822f0a63d1b),
    (150, 0x3c06096621782ce52c6d66538cbbb4d2e64293),
    (180, 0xc3cce9e5455e202e9a993aca425ca147b711724ed7767),
    (200, 0xe407c5dc09b5892655bc087a02341519cae6cd1c580bad62b3),
    (225, 0x1eaa970bcb10d8d36ba5cbcee2d885f553d4ee2bae6b53b4cb3365697),
    (256, 0xf50b79840a35e888cea8684b60033cd65db233956ea88f4b4f72fd3f7d25cc2b),
    (280, 0xc2e16dea49c3bba01d7da3151df09be5bdfd5ebfac159ca7ecc8f1728c3e914f4136af),
    (300, 0xe5ad2ba9053876d287a58b071497d9217e00061f82cf7ad61ff583ee7b65b3f9d6f9902c933),
    (320, 0xc5913bff6b3174ff1a248b30527c5dcf8bfa31bb702aa65916c8dbd8a11e67e782b332fd720eb8fb),
    (350, 0x3e7ba00b5add3ec0a6c2c1715028d24cabb247edd892874c66cb7e572e03d6fecd704dbf5ce7c2c8e3d54d6b),
    (384, 0xe26a7bfcf51a7b45065ccd08ef9cfe25c46f8780bdb24532883f678ac85d3e870c4705de623958a8d7e77b64a4ff34e3),
    (400, 0xee39e71d0ec1a95ffaa03658cadf729a32e748ec17bed80b5f5bf169255141bb882d8c0f1f146c3eecfcd9be794ac6aceb57),
    (425, 0x1a39a829b1e393d9fe28d331f48cde900f5bbea1cc98d6c9c24bd111d2d9da3d48a0eda8b70589297bc2bfe4a3c16ebbc526b46ea57),
    (450, 0x37ea36aaf96c9555c1cf6bcbcfbaacbe30f40ea9cf52f8d3e64fd0fcc251e894ba22d86a2d6ab16dddcfd2e32f25de0da7e62d78518a9f133),
    (480, 0xcf24033dafa0b1c2f3693b91d71c5757be13ef3e35f2fe0574bc20dcbf9f501caa20c9ac858709e64a78b237af81a728d95c3a399143a2f964931417),
    (500, 0xcc6f956de1b091ba678c5cd2620e6367c8c43603f7407b2944fd5c186acb3a2b0033f417175e477f1862b940b5fef86d704d2f3104e05762bb111cc1e9b9f),
    (511, 0x6d7a45eb19a06147820690cd6990081aa63d06a1ce105a63a94940101309894e1f38f95b14dad561df993f664e1056d50709654acf928052e90779f98f76e5af),
    (512, 0xfda59d843dc6eabd385c88d92b6b8429c85210b167d1bcb29fa4cdb9ed6ecfbd5ca1bd356978ff81e3bca22c5499a1272453562e70732098d091fd7a04dd72b7),
    (513, 0x1ae774aeb002f285369af9562f52e36515279f82a497806ffdfe11e83973d4fc16fb236deaa36ee312e71b22c9e28bc14fcaf42d521bbef6534797e7b0437227f),
    (550, 0x3c1600d1ee15578d044a2d7c4c9292a6477831dd0000e1107b996c7a16d28cdf1eaac302a58188789b128525a4335fd746c9225afcc01eb9c5b1c6d2c9838adcf505ea5eab),
    (600, 0xce6168121d059ab15f36f50f851018e9ae2b946d97d1a1719680d2672b7d5c63f9b60d1a4f9e26ee33ec849a69bc6bf5038f41267b1263708159f5a1e17d9e5810c2f443bc2c1bf0cad327),
    (640, 0xf9aeb7ea9bcf5ea2134d822d1c410c923a07e43c764dc82305525aed2c78b88d5941a4aa86f28c7ca27769e9ba451c55189578b93088431e5a39de21669baf95d60be8994d96aea69d33f9f3203f1993),
    (700, 0xd6eefc63dbd6c84d338631028829be096001b5e16a018368d24cdf6d769ab649b5884e9015fec1dd9ba60d252e53ecfcab356f89d59841587e73349d5a845673706c112b328985972bcf73b311b5dbbe70fc50c2a8e047f),
    (768, 0xdcb362b4799511dd128dbd7cdb1bab396a1a484430267bd01ff07fd8f8aa0ed8c6ddba313030b58433c87c1c445c02c71fd0376626de60837ece59ba401fdcca2e544ff9cdfacf998a1852eb578567039a70baec02b1cae959c452200e34667b),
    (1024, 0xde317f082ff68d9b08cc552fb4a64fa2de69272636dd8a24f297f7fd2ffe18696395048698ae1df3ba1f70c6192fd82add2850c762301efad2be7ed9ee91ede8112bb229f5a5d6470f951f006d1cdabecc436682cc43a2edb10d682e8ca29e172c95b3539c43c193e03aec85761b9eb958121c7e556b7dbbf03e037c27a86fc7),
    (1030, 0x3564298cb71ce10d634c15877940813ae2889341e03ad147f1adcdcbe06c520e2739c241c59cdb734efa8732d1e74078b5e8712c78c330c7f217137cef1b374741242dc24ee658b61d6e7b2fca45af54326dc2f77bd88e005fa42c367db69bc0908bca84d69208fef33a5906fbfb44aa40eb3ad99509168c64092bb7e4a4e8ea57),
]

"""Constants of GOST R 34.11-2012 / 34.12-2015, pinned here (not imported from the code under test).

Validated against the standards' examples and libgcrypt by selftest.py."""

PI = bytes.fromhex(
    'fceedd11cf6e3116fbc4fada23c5044de977f0db932e99ba1736f1bb14cd5fc1'
    'f918655ae25cef21811c3c428b018e4f058402aee36a8fa0060bed987fd4d31f'
    'eb342c51eac848abf22a68a2fd3aceccb5700e56080c7612bf7213479cb75d87'
    '15a19629107b9ac7f391786f9d9eb2b13275193dff358a7e6d54c680c3bd0d57'
    'dff524a93ea843c9d779d6f67c22b903e00fecde7a94b0bcdce828504e330a4a'
    'a79760731e0062441ab83882649f2641ad454692275e552f8ca3a57d69d5953b'
    '0758b34086ac1df730376be488d9e789e11b83494c3ff8fe8d53aa90cad88561'
    '207167a42d2b095bcb9b25d0bee56c5259a674d2e6f4b4c0d166afc2394b63b6'
)

# LINEAR[j][b]: image under the 64x64 GF(2) matrix of bit b of little-endian byte j of a word.
LINEAR = (
    (0x641c314b2b8ee083, 0xc83862965601dd1b, 0x8d70c431ac02a736, 0x07e095624504536c, 0x0edd37c48a08a6d8, 0x1ca76e95091051ad, 0x3853dc371220a247, 0x70a6a56e2440598e),
    (0xa48b474f9ef5dc18, 0x550b8e9e21f7a530, 0xaa16012142f35760, 0x492c024284fbaec0, 0x9258048415eb419d, 0x39b008152acb8227, 0x727d102a548b194e, 0xe4fa2054a80b329c),
    (0xf97d86d98a327728, 0xeffa11af0964ee50, 0xc3e9224312c8c1a0, 0x9bcf4486248d9f5d, 0x2b838811480723ba, 0x561b0d22900e4669, 0xac361a443d1c8cd2, 0x456c34887a3805b9),
    (0x5b068c651810a89e, 0xb60c05ca30204d21, 0x71180a8960409a42, 0xe230140fc0802984, 0xd960281e9d1d5215, 0xafc0503c273aa42a, 0x439da0784e745554, 0x86275df09ce8aaa8),
    (0x0321658cba93c138, 0x0642ca05693b9f70, 0x0c84890ad27623e0, 0x18150f14b9ec46dd, 0x302a1e286fc58ca7, 0x60543c50de970553, 0xc0a878a0a1330aa6, 0x9d4df05d5f661451),
    (0xaccc9ca9328a8950, 0x4585254f64090fa0, 0x8a174a9ec8121e5d, 0x092e94218d243cba, 0x125c354207487869, 0x24b86a840e90f0d2, 0x486dd4151c3dfdb9, 0x90dab52a387ae76f),
    (0x46b60f011a83988e, 0x8c711e02341b2d01, 0x05e23c0468365a02, 0x0ad97808d06cb404, 0x14aff010bdd87508, 0x2843fd2067adea10, 0x5086e740ce47c920, 0xa011d380818e8f40),
    (0x83478b07b2468764, 0x1b8e0b0e798c13c8, 0x3601161cf205268d, 0x6c022c38f90a4c07, 0xd8045870ef14980e, 0xad08b0e0c3282d1c, 0x47107ddd9b505a38, 0x8e20faa72ba0b470),
)

# Iteration constants C_1..C_12, little-endian byte order (byte 0 least significant).
ITER_C = (
    bytes.fromhex('0745a6f2596580dd234d74cc3674760515d360a4082a42a20169679291e07c4b'
                  'fcc485758db84e7116d0452e43766a2f1f7c65c0812fcbebe9daca1eda5b08b1'),
    bytes.fromhex('b79bb121700479e656cdcbd71ba2dd55caa70adbc261b55c5899d6126b17b59a'
                  '3101b5160f5ed561982b230a72eafef3d7b5700f469de34f1a2f9da98ab5a36f'),
    bytes.fromhex('b20aba0af5961e9931db7a8643f4b6c209db6260373ac9c1b19e3590e40fe2d3'
                  '7b7b29b11475eaf28b1f9c525f5ef10635843d6a28fc390ac72fce2bacdc74f5'),
    bytes.fromhex('2ed1e384bcbe0c22f137e893a1ea5334be0352933313b7d875d603ed822cd7a9'
                  '3f355e68ad1c729d7d3c5c337e858e48dde4715da0e148f9d26615e8b3df1fef'),
    bytes.fromhex('57fe6c7cfd581760f563eaa97ea2567a161a2723b700ffdfa3f53a254717cdbf'
                  'bdff0f80d7359e354a1086161f1c157f6323a96c0c413f9a994747adac6bea4b'),
    bytes.fromhex('6e7d64467a4068fa354f903672c571bfb6c6bec2661ff20ab4b79a1cb7a6facf'
                  'c68ef09ab49a7f186ca44251f9c4662dc039307a3bc3a46fd9d33a1daeae4fae'),
    bytes.fromhex('93d4143a4d568688f34a3ca24c45173504054a2883694706372c822dc5ab9209'
                  'c9937a19333e47d3c987bfe6c7c69e39540924bffe86ac51ecc5aaee160ec7f4'),
    bytes.fromhex('1ee702bfd40d7fa4d9a8515935c2ac362fc4a5d12b8dd16990069b92cb2b89f4'
                  '9ac4db4d3b44b4891ede369c71f8b74e41416e0c02aae703a7c9934d425b1f9b'),
    bytes.fromhex('db5a238351446172602a1fcb92dc380e549c07a69a8a2b7bb1ceb2db0b440a80'
                  '84090de0b755d93c244289251b3a7d3ade5f16ecd89a4c949b223116545a8f37'),
    bytes.fromhex('ed9c4598fbc7b474c3b63b15d1fa9836f452763b306c1e7a4b3369af0267e79f'
                  '0361331b8ae1ff1fdb788aff1ce74189f3f3e4b248e52a38526f0580a6debeab'),
    bytes.fromhex('1b2df381cda4ca6b5dd86fc04a59a2de986e477d1dcdbaefcab948eaef711d8a'
                  '79668414218001206107abebbb6bfad894fe5a63cdc60230fb89c8efd09ecd7b'),
    bytes.fromhex('20d71bf14a92bc48991bb2d9d517f4fa5228e188aaa41de786cc91189def805d'
                  '9b9f2130d41220f8771ddfbc323ca4cd7ab14904b08013d2ba3116f167e78e37'),
)

MAGMA_SBOX = (
    (12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1),
    (6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15),
    (11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0),
    (12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11),
    (7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12),
    (5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0),
    (8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7),
    (1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2),
)

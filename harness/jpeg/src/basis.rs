//! idct basis scaled by 2^20, in zig-zag order of the coefficient
pub static BASIS: [[i32; 64]; 64] = [
    [131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072],
    [181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802],
    [181802, 181802, 181802, 181802, 181802, 181802, 181802, 181802, 154124, 154124, 154124, 154124, 154124, 154124, 154124, 154124, 102983, 102983, 102983, 102983, 102983, 102983, 102983, 102983, 36163, 36163, 36163, 36163, 36163, 36163, 36163, 36163, -36163, -36163, -36163, -36163, -36163, -36163, -36163, -36163, -102983, -102983, -102983, -102983, -102983, -102983, -102983, -102983, -154124, -154124, -154124, -154124, -154124, -154124, -154124, -154124, -181802, -181802, -181802, -181802, -181802, -181802, -181802, -181802],
    [171254, 171254, 171254, 171254, 171254, 171254, 171254, 171254, 70936, 70936, 70936, 70936, 70936, 70936, 70936, 70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, 70936, 70936, 70936, 70936, 70936, 70936, 70936, 70936, 171254, 171254, 171254, 171254, 171254, 171254, 171254, 171254],
    [252167, 213777, 142841, 50159, -50159, -142841, -213777, -252167, 213777, 181231, 121095, 42523, -42523, -121095, -181231, -213777, 142841, 121095, 80913, 28413, -28413, -80913, -121095, -142841, 50159, 42523, 28413, 9977, -9977, -28413, -42523, -50159, -50159, -42523, -28413, -9977, 9977, 28413, 42523, 50159, -142841, -121095, -80913, -28413, 28413, 80913, 121095, 142841, -213777, -181231, -121095, -42523, 42523, 121095, 181231, 213777, -252167, -213777, -142841, -50159, 50159, 142841, 213777, 252167],
    [171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254],
    [154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124],
    [237536, 98391, -98391, -237536, -237536, -98391, 98391, 237536, 201373, 83412, -83412, -201373, -201373, -83412, 83412, 201373, 134553, 55734, -55734, -134553, -134553, -55734, 55734, 134553, 47249, 19571, -19571, -47249, -47249, -19571, 19571, 47249, -47249, -19571, 19571, 47249, 47249, 19571, -19571, -47249, -134553, -55734, 55734, 134553, 134553, 55734, -55734, -134553, -201373, -83412, 83412, 201373, 201373, 83412, -83412, -201373, -237536, -98391, 98391, 237536, 237536, 98391, -98391, -237536],
    [237536, 201373, 134553, 47249, -47249, -134553, -201373, -237536, 98391, 83412, 55734, 19571, -19571, -55734, -83412, -98391, -98391, -83412, -55734, -19571, 19571, 55734, 83412, 98391, -237536, -201373, -134553, -47249, 47249, 134553, 201373, 237536, -237536, -201373, -134553, -47249, 47249, 134553, 201373, 237536, -98391, -83412, -55734, -19571, 19571, 55734, 83412, 98391, 98391, 83412, 55734, 19571, -19571, -55734, -83412, -98391, 237536, 201373, 134553, 47249, -47249, -134553, -201373, -237536],
    [154124, 154124, 154124, 154124, 154124, 154124, 154124, 154124, -36163, -36163, -36163, -36163, -36163, -36163, -36163, -36163, -181802, -181802, -181802, -181802, -181802, -181802, -181802, -181802, -102983, -102983, -102983, -102983, -102983, -102983, -102983, -102983, 102983, 102983, 102983, 102983, 102983, 102983, 102983, 102983, 181802, 181802, 181802, 181802, 181802, 181802, 181802, 181802, 36163, 36163, 36163, 36163, 36163, 36163, 36163, 36163, -154124, -154124, -154124, -154124, -154124, -154124, -154124, -154124],
    [131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, -131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072, 131072],
    [213777, 181231, 121095, 42523, -42523, -121095, -181231, -213777, -50159, -42523, -28413, -9977, 9977, 28413, 42523, 50159, -252167, -213777, -142841, -50159, 50159, 142841, 213777, 252167, -142841, -121095, -80913, -28413, 28413, 80913, 121095, 142841, 142841, 121095, 80913, 28413, -28413, -80913, -121095, -142841, 252167, 213777, 142841, 50159, -50159, -142841, -213777, -252167, 50159, 42523, 28413, 9977, -9977, -28413, -42523, -50159, -213777, -181231, -121095, -42523, 42523, 121095, 181231, 213777],
    [223754, 92682, -92682, -223754, -223754, -92682, 92682, 223754, 92682, 38390, -38390, -92682, -92682, -38390, 38390, 92682, -92682, -38390, 38390, 92682, 92682, 38390, -38390, -92682, -223754, -92682, 92682, 223754, 223754, 92682, -92682, -223754, -223754, -92682, 92682, 223754, 223754, 92682, -92682, -223754, -92682, -38390, 38390, 92682, 92682, 38390, -38390, -92682, 92682, 38390, -38390, -92682, -92682, -38390, 38390, 92682, 223754, 92682, -92682, -223754, -223754, -92682, 92682, 223754],
    [213777, -50159, -252167, -142841, 142841, 252167, 50159, -213777, 181231, -42523, -213777, -121095, 121095, 213777, 42523, -181231, 121095, -28413, -142841, -80913, 80913, 142841, 28413, -121095, 42523, -9977, -50159, -28413, 28413, 50159, 9977, -42523, -42523, 9977, 50159, 28413, -28413, -50159, -9977, 42523, -121095, 28413, 142841, 80913, -80913, -142841, -28413, 121095, -181231, 42523, 213777, 121095, -121095, -213777, -42523, 181231, -213777, 50159, 252167, 142841, -142841, -252167, -50159, 213777],
    [131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072],
    [102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983],
    [181802, -181802, -181802, 181802, 181802, -181802, -181802, 181802, 154124, -154124, -154124, 154124, 154124, -154124, -154124, 154124, 102983, -102983, -102983, 102983, 102983, -102983, -102983, 102983, 36163, -36163, -36163, 36163, 36163, -36163, -36163, 36163, -36163, 36163, 36163, -36163, -36163, 36163, 36163, -36163, -102983, 102983, 102983, -102983, -102983, 102983, 102983, -102983, -154124, 154124, 154124, -154124, -154124, 154124, 154124, -154124, -181802, 181802, 181802, -181802, -181802, 181802, 181802, -181802],
    [201373, -47249, -237536, -134553, 134553, 237536, 47249, -201373, 83412, -19571, -98391, -55734, 55734, 98391, 19571, -83412, -83412, 19571, 98391, 55734, -55734, -98391, -19571, 83412, -201373, 47249, 237536, 134553, -134553, -237536, -47249, 201373, -201373, 47249, 237536, 134553, -134553, -237536, -47249, 201373, -83412, 19571, 98391, 55734, -55734, -98391, -19571, 83412, 83412, -19571, -98391, -55734, 55734, 98391, 19571, -83412, 201373, -47249, -237536, -134553, 134553, 237536, 47249, -201373],
    [201373, 83412, -83412, -201373, -201373, -83412, 83412, 201373, -47249, -19571, 19571, 47249, 47249, 19571, -19571, -47249, -237536, -98391, 98391, 237536, 237536, 98391, -98391, -237536, -134553, -55734, 55734, 134553, 134553, 55734, -55734, -134553, 134553, 55734, -55734, -134553, -134553, -55734, 55734, 134553, 237536, 98391, -98391, -237536, -237536, -98391, 98391, 237536, 47249, 19571, -19571, -47249, -47249, -19571, 19571, 47249, -201373, -83412, 83412, 201373, 201373, 83412, -83412, -201373],
    [181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, -181802, -154124, -102983, -36163, 36163, 102983, 154124, 181802, -181802, -154124, -102983, -36163, 36163, 102983, 154124, 181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802, -181802, -154124, -102983, -36163, 36163, 102983, 154124, 181802, -181802, -154124, -102983, -36163, 36163, 102983, 154124, 181802, 181802, 154124, 102983, 36163, -36163, -102983, -154124, -181802],
    [102983, 102983, 102983, 102983, 102983, 102983, 102983, 102983, -181802, -181802, -181802, -181802, -181802, -181802, -181802, -181802, 36163, 36163, 36163, 36163, 36163, 36163, 36163, 36163, 154124, 154124, 154124, 154124, 154124, 154124, 154124, 154124, -154124, -154124, -154124, -154124, -154124, -154124, -154124, -154124, -36163, -36163, -36163, -36163, -36163, -36163, -36163, -36163, 181802, 181802, 181802, 181802, 181802, 181802, 181802, 181802, -102983, -102983, -102983, -102983, -102983, -102983, -102983, -102983],
    [70936, 70936, 70936, 70936, 70936, 70936, 70936, 70936, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, 171254, 171254, 171254, 171254, 171254, 171254, 171254, 171254, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, -70936, 171254, 171254, 171254, 171254, 171254, 171254, 171254, 171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, -171254, 70936, 70936, 70936, 70936, 70936, 70936, 70936, 70936],
    [142841, 121095, 80913, 28413, -28413, -80913, -121095, -142841, -252167, -213777, -142841, -50159, 50159, 142841, 213777, 252167, 50159, 42523, 28413, 9977, -9977, -28413, -42523, -50159, 213777, 181231, 121095, 42523, -42523, -121095, -181231, -213777, -213777, -181231, -121095, -42523, 42523, 121095, 181231, 213777, -50159, -42523, -28413, -9977, 9977, 28413, 42523, 50159, 252167, 213777, 142841, 50159, -50159, -142841, -213777, -252167, -142841, -121095, -80913, -28413, 28413, 80913, 121095, 142841],
    [171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254, 171254, 70936, -70936, -171254, 171254, 70936, -70936, -171254, -171254, -70936, 70936, 171254],
    [181231, -42523, -213777, -121095, 121095, 213777, 42523, -181231, -42523, 9977, 50159, 28413, -28413, -50159, -9977, 42523, -213777, 50159, 252167, 142841, -142841, -252167, -50159, 213777, -121095, 28413, 142841, 80913, -80913, -142841, -28413, 121095, 121095, -28413, -142841, -80913, 80913, 142841, 28413, -121095, 213777, -50159, -252167, -142841, 142841, 252167, 50159, -213777, 42523, -9977, -50159, -28413, 28413, 50159, 9977, -42523, -181231, 42523, 213777, 121095, -121095, -213777, -42523, 181231],
    [171254, -171254, -171254, 171254, 171254, -171254, -171254, 171254, 70936, -70936, -70936, 70936, 70936, -70936, -70936, 70936, -70936, 70936, 70936, -70936, -70936, 70936, 70936, -70936, -171254, 171254, 171254, -171254, -171254, 171254, 171254, -171254, -171254, 171254, 171254, -171254, -171254, 171254, 171254, -171254, -70936, 70936, 70936, -70936, -70936, 70936, 70936, -70936, 70936, -70936, -70936, 70936, 70936, -70936, -70936, 70936, 171254, -171254, -171254, 171254, 171254, -171254, -171254, 171254],
    [142841, -252167, 50159, 213777, -213777, -50159, 252167, -142841, 121095, -213777, 42523, 181231, -181231, -42523, 213777, -121095, 80913, -142841, 28413, 121095, -121095, -28413, 142841, -80913, 28413, -50159, 9977, 42523, -42523, -9977, 50159, -28413, -28413, 50159, -9977, -42523, 42523, 9977, -50159, 28413, -80913, 142841, -28413, -121095, 121095, 28413, -142841, 80913, -121095, 213777, -42523, -181231, 181231, 42523, -213777, 121095, -142841, 252167, -50159, -213777, 213777, 50159, -252167, 142841],
    [70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936],
    [36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163],
    [98391, -237536, 237536, -98391, -98391, 237536, -237536, 98391, 83412, -201373, 201373, -83412, -83412, 201373, -201373, 83412, 55734, -134553, 134553, -55734, -55734, 134553, -134553, 55734, 19571, -47249, 47249, -19571, -19571, 47249, -47249, 19571, -19571, 47249, -47249, 19571, 19571, -47249, 47249, -19571, -55734, 134553, -134553, 55734, 55734, -134553, 134553, -55734, -83412, 201373, -201373, 83412, 83412, -201373, 201373, -83412, -98391, 237536, -237536, 98391, 98391, -237536, 237536, -98391],
    [134553, -237536, 47249, 201373, -201373, -47249, 237536, -134553, 55734, -98391, 19571, 83412, -83412, -19571, 98391, -55734, -55734, 98391, -19571, -83412, 83412, 19571, -98391, 55734, -134553, 237536, -47249, -201373, 201373, 47249, -237536, 134553, -134553, 237536, -47249, -201373, 201373, 47249, -237536, 134553, -55734, 98391, -19571, -83412, 83412, 19571, -98391, 55734, 55734, -98391, 19571, 83412, -83412, -19571, 98391, -55734, 134553, -237536, 47249, 201373, -201373, -47249, 237536, -134553],
    [154124, -154124, -154124, 154124, 154124, -154124, -154124, 154124, -36163, 36163, 36163, -36163, -36163, 36163, 36163, -36163, -181802, 181802, 181802, -181802, -181802, 181802, 181802, -181802, -102983, 102983, 102983, -102983, -102983, 102983, 102983, -102983, 102983, -102983, -102983, 102983, 102983, -102983, -102983, 102983, 181802, -181802, -181802, 181802, 181802, -181802, -181802, 181802, 36163, -36163, -36163, 36163, 36163, -36163, -36163, 36163, -154124, 154124, 154124, -154124, -154124, 154124, 154124, -154124],
    [154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, -154124, 36163, 181802, 102983, -102983, -181802, -36163, 154124, -154124, 36163, 181802, 102983, -102983, -181802, -36163, 154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124, -154124, 36163, 181802, 102983, -102983, -181802, -36163, 154124, -154124, 36163, 181802, 102983, -102983, -181802, -36163, 154124, 154124, -36163, -181802, -102983, 102983, 181802, 36163, -154124],
    [134553, 55734, -55734, -134553, -134553, -55734, 55734, 134553, -237536, -98391, 98391, 237536, 237536, 98391, -98391, -237536, 47249, 19571, -19571, -47249, -47249, -19571, 19571, 47249, 201373, 83412, -83412, -201373, -201373, -83412, 83412, 201373, -201373, -83412, 83412, 201373, 201373, 83412, -83412, -201373, -47249, -19571, 19571, 47249, 47249, 19571, -19571, -47249, 237536, 98391, -98391, -237536, -237536, -98391, 98391, 237536, -134553, -55734, 55734, 134553, 134553, 55734, -55734, -134553],
    [98391, 83412, 55734, 19571, -19571, -55734, -83412, -98391, -237536, -201373, -134553, -47249, 47249, 134553, 201373, 237536, 237536, 201373, 134553, 47249, -47249, -134553, -201373, -237536, -98391, -83412, -55734, -19571, 19571, 55734, 83412, 98391, -98391, -83412, -55734, -19571, 19571, 55734, 83412, 98391, 237536, 201373, 134553, 47249, -47249, -134553, -201373, -237536, -237536, -201373, -134553, -47249, 47249, 134553, 201373, 237536, 98391, 83412, 55734, 19571, -19571, -55734, -83412, -98391],
    [36163, 36163, 36163, 36163, 36163, 36163, 36163, 36163, -102983, -102983, -102983, -102983, -102983, -102983, -102983, -102983, 154124, 154124, 154124, 154124, 154124, 154124, 154124, 154124, -181802, -181802, -181802, -181802, -181802, -181802, -181802, -181802, 181802, 181802, 181802, 181802, 181802, 181802, 181802, 181802, -154124, -154124, -154124, -154124, -154124, -154124, -154124, -154124, 102983, 102983, 102983, 102983, 102983, 102983, 102983, 102983, -36163, -36163, -36163, -36163, -36163, -36163, -36163, -36163],
    [50159, 42523, 28413, 9977, -9977, -28413, -42523, -50159, -142841, -121095, -80913, -28413, 28413, 80913, 121095, 142841, 213777, 181231, 121095, 42523, -42523, -121095, -181231, -213777, -252167, -213777, -142841, -50159, 50159, 142841, 213777, 252167, 252167, 213777, 142841, 50159, -50159, -142841, -213777, -252167, -213777, -181231, -121095, -42523, 42523, 121095, 181231, 213777, 142841, 121095, 80913, 28413, -28413, -80913, -121095, -142841, -50159, -42523, -28413, -9977, 9977, 28413, 42523, 50159],
    [92682, 38390, -38390, -92682, -92682, -38390, 38390, 92682, -223754, -92682, 92682, 223754, 223754, 92682, -92682, -223754, 223754, 92682, -92682, -223754, -223754, -92682, 92682, 223754, -92682, -38390, 38390, 92682, 92682, 38390, -38390, -92682, -92682, -38390, 38390, 92682, 92682, 38390, -38390, -92682, 223754, 92682, -92682, -223754, -223754, -92682, 92682, 223754, -223754, -92682, 92682, 223754, 223754, 92682, -92682, -223754, 92682, 38390, -38390, -92682, -92682, -38390, 38390, 92682],
    [121095, -28413, -142841, -80913, 80913, 142841, 28413, -121095, -213777, 50159, 252167, 142841, -142841, -252167, -50159, 213777, 42523, -9977, -50159, -28413, 28413, 50159, 9977, -42523, 181231, -42523, -213777, -121095, 121095, 213777, 42523, -181231, -181231, 42523, 213777, 121095, -121095, -213777, -42523, 181231, -42523, 9977, 50159, 28413, -28413, -50159, -9977, 42523, 213777, -50159, -252167, -142841, 142841, 252167, 50159, -213777, -121095, 28413, 142841, 80913, -80913, -142841, -28413, 121095],
    [131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072, 131072, -131072, 131072, -131072, -131072, 131072, 131072, -131072, -131072, 131072],
    [121095, -213777, 42523, 181231, -181231, -42523, 213777, -121095, -28413, 50159, -9977, -42523, 42523, 9977, -50159, 28413, -142841, 252167, -50159, -213777, 213777, 50159, -252167, 142841, -80913, 142841, -28413, -121095, 121095, 28413, -142841, 80913, 80913, -142841, 28413, 121095, -121095, -28413, 142841, -80913, 142841, -252167, 50159, 213777, -213777, -50159, 252167, -142841, 28413, -50159, 9977, 42523, -42523, -9977, 50159, -28413, -121095, 213777, -42523, -181231, 181231, 42523, -213777, 121095],
    [92682, -223754, 223754, -92682, -92682, 223754, -223754, 92682, 38390, -92682, 92682, -38390, -38390, 92682, -92682, 38390, -38390, 92682, -92682, 38390, 38390, -92682, 92682, -38390, -92682, 223754, -223754, 92682, 92682, -223754, 223754, -92682, -92682, 223754, -223754, 92682, 92682, -223754, 223754, -92682, -38390, 92682, -92682, 38390, 38390, -92682, 92682, -38390, 38390, -92682, 92682, -38390, -38390, 92682, -92682, 38390, 92682, -223754, 223754, -92682, -92682, 223754, -223754, 92682],
    [50159, -142841, 213777, -252167, 252167, -213777, 142841, -50159, 42523, -121095, 181231, -213777, 213777, -181231, 121095, -42523, 28413, -80913, 121095, -142841, 142841, -121095, 80913, -28413, 9977, -28413, 42523, -50159, 50159, -42523, 28413, -9977, -9977, 28413, -42523, 50159, -50159, 42523, -28413, 9977, -28413, 80913, -121095, 142841, -142841, 121095, -80913, 28413, -42523, 121095, -181231, 213777, -213777, 181231, -121095, 42523, -50159, 142841, -213777, 252167, -252167, 213777, -142841, 50159],
    [47249, -134553, 201373, -237536, 237536, -201373, 134553, -47249, 19571, -55734, 83412, -98391, 98391, -83412, 55734, -19571, -19571, 55734, -83412, 98391, -98391, 83412, -55734, 19571, -47249, 134553, -201373, 237536, -237536, 201373, -134553, 47249, -47249, 134553, -201373, 237536, -237536, 201373, -134553, 47249, -19571, 55734, -83412, 98391, -98391, 83412, -55734, 19571, 19571, -55734, 83412, -98391, 98391, -83412, 55734, -19571, 47249, -134553, 201373, -237536, 237536, -201373, 134553, -47249],
    [83412, -201373, 201373, -83412, -83412, 201373, -201373, 83412, -19571, 47249, -47249, 19571, 19571, -47249, 47249, -19571, -98391, 237536, -237536, 98391, 98391, -237536, 237536, -98391, -55734, 134553, -134553, 55734, 55734, -134553, 134553, -55734, 55734, -134553, 134553, -55734, -55734, 134553, -134553, 55734, 98391, -237536, 237536, -98391, -98391, 237536, -237536, 98391, 19571, -47249, 47249, -19571, -19571, 47249, -47249, 19571, -83412, 201373, -201373, 83412, 83412, -201373, 201373, -83412],
    [102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, -102983, 181802, -36163, -154124, 154124, 36163, -181802, 102983, -102983, 181802, -36163, -154124, 154124, 36163, -181802, 102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983, -102983, 181802, -36163, -154124, 154124, 36163, -181802, 102983, -102983, 181802, -36163, -154124, 154124, 36163, -181802, 102983, 102983, -181802, 36163, 154124, -154124, -36163, 181802, -102983],
    [102983, -102983, -102983, 102983, 102983, -102983, -102983, 102983, -181802, 181802, 181802, -181802, -181802, 181802, 181802, -181802, 36163, -36163, -36163, 36163, 36163, -36163, -36163, 36163, 154124, -154124, -154124, 154124, 154124, -154124, -154124, 154124, -154124, 154124, 154124, -154124, -154124, 154124, 154124, -154124, -36163, 36163, 36163, -36163, -36163, 36163, 36163, -36163, 181802, -181802, -181802, 181802, 181802, -181802, -181802, 181802, -102983, 102983, 102983, -102983, -102983, 102983, 102983, -102983],
    [83412, -19571, -98391, -55734, 55734, 98391, 19571, -83412, -201373, 47249, 237536, 134553, -134553, -237536, -47249, 201373, 201373, -47249, -237536, -134553, 134553, 237536, 47249, -201373, -83412, 19571, 98391, 55734, -55734, -98391, -19571, 83412, -83412, 19571, 98391, 55734, -55734, -98391, -19571, 83412, 201373, -47249, -237536, -134553, 134553, 237536, 47249, -201373, -201373, 47249, 237536, 134553, -134553, -237536, -47249, 201373, 83412, -19571, -98391, -55734, 55734, 98391, 19571, -83412],
    [47249, 19571, -19571, -47249, -47249, -19571, 19571, 47249, -134553, -55734, 55734, 134553, 134553, 55734, -55734, -134553, 201373, 83412, -83412, -201373, -201373, -83412, 83412, 201373, -237536, -98391, 98391, 237536, 237536, 98391, -98391, -237536, 237536, 98391, -98391, -237536, -237536, -98391, 98391, 237536, -201373, -83412, 83412, 201373, 201373, 83412, -83412, -201373, 134553, 55734, -55734, -134553, -134553, -55734, 55734, 134553, -47249, -19571, 19571, 47249, 47249, 19571, -19571, -47249],
    [42523, -9977, -50159, -28413, 28413, 50159, 9977, -42523, -121095, 28413, 142841, 80913, -80913, -142841, -28413, 121095, 181231, -42523, -213777, -121095, 121095, 213777, 42523, -181231, -213777, 50159, 252167, 142841, -142841, -252167, -50159, 213777, 213777, -50159, -252167, -142841, 142841, 252167, 50159, -213777, -181231, 42523, 213777, 121095, -121095, -213777, -42523, 181231, 121095, -28413, -142841, -80913, 80913, 142841, 28413, -121095, -42523, 9977, 50159, 28413, -28413, -50159, -9977, 42523],
    [70936, -70936, -70936, 70936, 70936, -70936, -70936, 70936, -171254, 171254, 171254, -171254, -171254, 171254, 171254, -171254, 171254, -171254, -171254, 171254, 171254, -171254, -171254, 171254, -70936, 70936, 70936, -70936, -70936, 70936, 70936, -70936, -70936, 70936, 70936, -70936, -70936, 70936, 70936, -70936, 171254, -171254, -171254, 171254, 171254, -171254, -171254, 171254, -171254, 171254, 171254, -171254, -171254, 171254, 171254, -171254, 70936, -70936, -70936, 70936, 70936, -70936, -70936, 70936],
    [80913, -142841, 28413, 121095, -121095, -28413, 142841, -80913, -142841, 252167, -50159, -213777, 213777, 50159, -252167, 142841, 28413, -50159, 9977, 42523, -42523, -9977, 50159, -28413, 121095, -213777, 42523, 181231, -181231, -42523, 213777, -121095, -121095, 213777, -42523, -181231, 181231, 42523, -213777, 121095, -28413, 50159, -9977, -42523, 42523, 9977, -50159, 28413, 142841, -252167, 50159, 213777, -213777, -50159, 252167, -142841, -80913, 142841, -28413, -121095, 121095, 28413, -142841, 80913],
    [70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936, 70936, -171254, 171254, -70936, 70936, -171254, 171254, -70936, -70936, 171254, -171254, 70936],
    [42523, -121095, 181231, -213777, 213777, -181231, 121095, -42523, -9977, 28413, -42523, 50159, -50159, 42523, -28413, 9977, -50159, 142841, -213777, 252167, -252167, 213777, -142841, 50159, -28413, 80913, -121095, 142841, -142841, 121095, -80913, 28413, 28413, -80913, 121095, -142841, 142841, -121095, 80913, -28413, 50159, -142841, 213777, -252167, 252167, -213777, 142841, -50159, 9977, -28413, 42523, -50159, 50159, -42523, 28413, -9977, -42523, 121095, -181231, 213777, -213777, 181231, -121095, 42523],
    [36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, -36163, 102983, -154124, 181802, -181802, 154124, -102983, 36163, -36163, 102983, -154124, 181802, -181802, 154124, -102983, 36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163, -36163, 102983, -154124, 181802, -181802, 154124, -102983, 36163, -36163, 102983, -154124, 181802, -181802, 154124, -102983, 36163, 36163, -102983, 154124, -181802, 181802, -154124, 102983, -36163],
    [55734, -134553, 134553, -55734, -55734, 134553, -134553, 55734, -98391, 237536, -237536, 98391, 98391, -237536, 237536, -98391, 19571, -47249, 47249, -19571, -19571, 47249, -47249, 19571, 83412, -201373, 201373, -83412, -83412, 201373, -201373, 83412, -83412, 201373, -201373, 83412, 83412, -201373, 201373, -83412, -19571, 47249, -47249, 19571, 19571, -47249, 47249, -19571, 98391, -237536, 237536, -98391, -98391, 237536, -237536, 98391, -55734, 134553, -134553, 55734, 55734, -134553, 134553, -55734],
    [55734, -98391, 19571, 83412, -83412, -19571, 98391, -55734, -134553, 237536, -47249, -201373, 201373, 47249, -237536, 134553, 134553, -237536, 47249, 201373, -201373, -47249, 237536, -134553, -55734, 98391, -19571, -83412, 83412, 19571, -98391, 55734, -55734, 98391, -19571, -83412, 83412, 19571, -98391, 55734, 134553, -237536, 47249, 201373, -201373, -47249, 237536, -134553, -134553, 237536, -47249, -201373, 201373, 47249, -237536, 134553, 55734, -98391, 19571, 83412, -83412, -19571, 98391, -55734],
    [36163, -36163, -36163, 36163, 36163, -36163, -36163, 36163, -102983, 102983, 102983, -102983, -102983, 102983, 102983, -102983, 154124, -154124, -154124, 154124, 154124, -154124, -154124, 154124, -181802, 181802, 181802, -181802, -181802, 181802, 181802, -181802, 181802, -181802, -181802, 181802, 181802, -181802, -181802, 181802, -154124, 154124, 154124, -154124, -154124, 154124, 154124, -154124, 102983, -102983, -102983, 102983, 102983, -102983, -102983, 102983, -36163, 36163, 36163, -36163, -36163, 36163, 36163, -36163],
    [28413, -50159, 9977, 42523, -42523, -9977, 50159, -28413, -80913, 142841, -28413, -121095, 121095, 28413, -142841, 80913, 121095, -213777, 42523, 181231, -181231, -42523, 213777, -121095, -142841, 252167, -50159, -213777, 213777, 50159, -252167, 142841, 142841, -252167, 50159, 213777, -213777, -50159, 252167, -142841, -121095, 213777, -42523, -181231, 181231, 42523, -213777, 121095, 80913, -142841, 28413, 121095, -121095, -28413, 142841, -80913, -28413, 50159, -9977, -42523, 42523, 9977, -50159, 28413],
    [38390, -92682, 92682, -38390, -38390, 92682, -92682, 38390, -92682, 223754, -223754, 92682, 92682, -223754, 223754, -92682, 92682, -223754, 223754, -92682, -92682, 223754, -223754, 92682, -38390, 92682, -92682, 38390, 38390, -92682, 92682, -38390, -38390, 92682, -92682, 38390, 38390, -92682, 92682, -38390, 92682, -223754, 223754, -92682, -92682, 223754, -223754, 92682, -92682, 223754, -223754, 92682, 92682, -223754, 223754, -92682, 38390, -92682, 92682, -38390, -38390, 92682, -92682, 38390],
    [28413, -80913, 121095, -142841, 142841, -121095, 80913, -28413, -50159, 142841, -213777, 252167, -252167, 213777, -142841, 50159, 9977, -28413, 42523, -50159, 50159, -42523, 28413, -9977, 42523, -121095, 181231, -213777, 213777, -181231, 121095, -42523, -42523, 121095, -181231, 213777, -213777, 181231, -121095, 42523, -9977, 28413, -42523, 50159, -50159, 42523, -28413, 9977, 50159, -142841, 213777, -252167, 252167, -213777, 142841, -50159, -28413, 80913, -121095, 142841, -142841, 121095, -80913, 28413],
    [19571, -55734, 83412, -98391, 98391, -83412, 55734, -19571, -47249, 134553, -201373, 237536, -237536, 201373, -134553, 47249, 47249, -134553, 201373, -237536, 237536, -201373, 134553, -47249, -19571, 55734, -83412, 98391, -98391, 83412, -55734, 19571, -19571, 55734, -83412, 98391, -98391, 83412, -55734, 19571, 47249, -134553, 201373, -237536, 237536, -201373, 134553, -47249, -47249, 134553, -201373, 237536, -237536, 201373, -134553, 47249, 19571, -55734, 83412, -98391, 98391, -83412, 55734, -19571],
    [19571, -47249, 47249, -19571, -19571, 47249, -47249, 19571, -55734, 134553, -134553, 55734, 55734, -134553, 134553, -55734, 83412, -201373, 201373, -83412, -83412, 201373, -201373, 83412, -98391, 237536, -237536, 98391, 98391, -237536, 237536, -98391, 98391, -237536, 237536, -98391, -98391, 237536, -237536, 98391, -83412, 201373, -201373, 83412, 83412, -201373, 201373, -83412, 55734, -134553, 134553, -55734, -55734, 134553, -134553, 55734, -19571, 47249, -47249, 19571, 19571, -47249, 47249, -19571],
    [9977, -28413, 42523, -50159, 50159, -42523, 28413, -9977, -28413, 80913, -121095, 142841, -142841, 121095, -80913, 28413, 42523, -121095, 181231, -213777, 213777, -181231, 121095, -42523, -50159, 142841, -213777, 252167, -252167, 213777, -142841, 50159, 50159, -142841, 213777, -252167, 252167, -213777, 142841, -50159, -42523, 121095, -181231, 213777, -213777, 181231, -121095, 42523, 28413, -80913, 121095, -142841, 142841, -121095, 80913, -28413, -9977, 28413, -42523, 50159, -50159, 42523, -28413, 9977],
];

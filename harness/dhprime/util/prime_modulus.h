/* Table sizes for the solver build of dhash.c (the list is a documented configuration point): small enough that
   a few operations collide, wrap around, fill the table and make it grow twice. */
#define NUM_PRIME_MODULI       4
#define NUM_PRIME_MODULI_16    3
#define MAX_PRIME_MODULUS      11ULL
#define MAX_PRIME_MODULUS_16   7
#define PRIME_LIST_16(M) M(0, 3) M(1, 5) M(2, 7)
#define PRIME_LIST(M) M(3, 11)

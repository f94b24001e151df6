// the generator as built for C libraries without thread_local (pthread keys, /dev/urandom); prefix mu_
extern "C" {
decltype(futils_random) mu_futils_random __attribute__((weak));
decltype(futils_randomr8) mu_futils_randomr8 __attribute__((weak));
decltype(futils_randomr16) mu_futils_randomr16 __attribute__((weak));
decltype(futils_randomr32) mu_futils_randomr32 __attribute__((weak));
decltype(futils_randomr64) mu_futils_randomr64 __attribute__((weak));
decltype(futils_randomr8_maximum) mu_futils_randomr8_maximum __attribute__((weak));
decltype(futils_randomr16_maximum) mu_futils_randomr16_maximum __attribute__((weak));
decltype(futils_randomr32_maximum) mu_futils_randomr32_maximum __attribute__((weak));
decltype(futils_randomr64_maximum) mu_futils_randomr64_maximum __attribute__((weak));
decltype(futils_randomrd) mu_futils_randomrd __attribute__((weak));
decltype(futils_randomrf) mu_futils_randomrf __attribute__((weak));
decltype(futils_random_string) mu_futils_random_string __attribute__((weak));
decltype(futils_random_base16) mu_futils_random_base16 __attribute__((weak));
decltype(futils_random_base32) mu_futils_random_base32 __attribute__((weak));
decltype(futils_random_base64) mu_futils_random_base64 __attribute__((weak));
decltype(futils_random_shuffle) mu_futils_random_shuffle __attribute__((weak));
decltype(futils_random_reseed) mu_futils_random_reseed __attribute__((weak));
decltype(futils_random_strong) mu_futils_random_strong __attribute__((weak));
}
#define futils_random (::sim::W->build ? mu_futils_random : futils_random)
#define futils_randomr8 (::sim::W->build ? mu_futils_randomr8 : futils_randomr8)
#define futils_randomr16 (::sim::W->build ? mu_futils_randomr16 : futils_randomr16)
#define futils_randomr32 (::sim::W->build ? mu_futils_randomr32 : futils_randomr32)
#define futils_randomr64 (::sim::W->build ? mu_futils_randomr64 : futils_randomr64)
#define futils_randomr8_maximum (::sim::W->build ? mu_futils_randomr8_maximum : futils_randomr8_maximum)
#define futils_randomr16_maximum (::sim::W->build ? mu_futils_randomr16_maximum : futils_randomr16_maximum)
#define futils_randomr32_maximum (::sim::W->build ? mu_futils_randomr32_maximum : futils_randomr32_maximum)
#define futils_randomr64_maximum (::sim::W->build ? mu_futils_randomr64_maximum : futils_randomr64_maximum)
#define futils_randomrd (::sim::W->build ? mu_futils_randomrd : futils_randomrd)
#define futils_randomrf (::sim::W->build ? mu_futils_randomrf : futils_randomrf)
#define futils_random_string (::sim::W->build ? mu_futils_random_string : futils_random_string)
#define futils_random_base16 (::sim::W->build ? mu_futils_random_base16 : futils_random_base16)
#define futils_random_base32 (::sim::W->build ? mu_futils_random_base32 : futils_random_base32)
#define futils_random_base64 (::sim::W->build ? mu_futils_random_base64 : futils_random_base64)
#define futils_random_shuffle (::sim::W->build ? mu_futils_random_shuffle : futils_random_shuffle)
#define futils_random_reseed (::sim::W->build ? mu_futils_random_reseed : futils_random_reseed)
#define futils_random_strong (::sim::W->build ? mu_futils_random_strong : futils_random_strong)
// draws which build this run calls
static inline void pick_random_build(u32 ppm = 150000)
{
	if (!mu_futils_random || !sim::chance(ppm)) return;
	sim::W->build = 1;
	sim::entropy_cfg().nosys = true; // it knows no getrandom()
	sim::probe("generator built without thread_local and getrandom");
}

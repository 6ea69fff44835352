#ifndef VERIF_TELESCOPE
#define VERIF_TELESCOPE
namespace everybeam::telescope { class Telescope { public: virtual ~Telescope() = default; }; }
#endif

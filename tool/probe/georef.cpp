// Makes clang emit the inline members of headers that no library source uses.
#include <msat/gdal/dataset.h>
auto msat_verif_probe_1 = &msat::dataset::GeoReferencer::pixelToLatlon;
auto msat_verif_probe_2 = &msat::dataset::GeoReferencer::latlonToPixel;

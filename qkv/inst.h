// explicit instantiations, so that every member of the container template is extracted
#include "lib/indexer_interface.h"
#include "data/extended_datachunk.h"
namespace qk { template class indexer_interface<double>; template class indexer_interface<qk::data::extended_datachunk>; template class indexer_interface<qk::range>; }

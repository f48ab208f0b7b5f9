// instantiates the members of the project's class templates that the program itself never uses, so that they are analysed
#include "utility/array2D.hpp"
template class Array2D<unsigned int>;

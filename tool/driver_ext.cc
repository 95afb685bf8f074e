// Analysis driver for the code under extern/ (only parsed by the extractor, never compiled to code or executed).
#include <cassert>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <vector>
#include "Common.hh"
#include "Vector.hh"
#include "shower_1D.cpp"
#include "ice_profile.cpp"
#include "shower_creator.cpp"
#include "C8SignalCalculator.hxx"

// Stands in for the header of the target that util/big_buffer.hh includes.
#pragma once
struct BigHeapAllocation {};

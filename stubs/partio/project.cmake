set(partio_srcs "${partio_SOURCE_DIR}/Partio.cpp")
include_directories(${partio_SOURCE_DIR})
set(partio_libs)

# Included from the deferred hook at the end of RoughPy's top-level directory.
function(vh_add name)
  add_executable(${name} EXCLUDE_FROM_ALL "${VH_HARNESS_DIR}/${name}.cpp")
  target_include_directories(${name} PRIVATE "${VH_HARNESS_DIR}")
  target_compile_options(${name} PRIVATE -w -g0)
  set_target_properties(${name} PROPERTIES CXX_STANDARD 17
    RUNTIME_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/harness")
  target_link_libraries(${name} PRIVATE ${ARGN})
endfunction()
vh_add(vh_intervals RoughPy_Intervals)

vh_add(vh_generic RoughPy_Platform gmp)

vh_add(vh_genpoly RoughPy_Platform gmp)
target_include_directories(vh_genpoly PRIVATE "${CMAKE_SOURCE_DIR}/platform/src")

vh_add(vh_alg RoughPy_Algebra gmp)

vh_add(vh_scalar RoughPy_Algebra gmp)

vh_add(vh_brownian RoughPy_Streams RoughPy_Algebra gmp)

vh_add(vh_cstreams RoughPy_Streams RoughPy_Algebra gmp)

# interleavings: only in the flavour whose links divert the synchronisation operations
if(VH_FLAVOUR STREQUAL "tsan")
  vh_add(vh_threads RoughPy_Streams RoughPy_Algebra gmp)
  target_sources(vh_threads PRIVATE "${VH_HARNESS_DIR}/vh_sched.c")
  set_source_files_properties("${VH_HARNESS_DIR}/vh_sched.c" TARGET_DIRECTORY vh_threads
    PROPERTIES COMPILE_OPTIONS "-fno-sanitize=all")
endif()

vh_add(vh_archive RoughPy_Streams RoughPy_Algebra gmp)

# header-only kernels of roughpy.compute
vh_add(vh_compute)
target_include_directories(vh_compute PRIVATE "${CMAKE_SOURCE_DIR}")

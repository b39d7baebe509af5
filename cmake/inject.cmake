# Included by project(RoughPy) through CMAKE_PROJECT_RoughPy_INCLUDE: the
# sandbox's own omissions, then (deferred to the end of the top-level
# directory) the verification harnesses as extra targets of the same build,
# so that ninja tracks every header and library they use.
include(/opt/vp/cmake/leave-out.cmake OPTIONAL)

function(_vh_hook)
  if(TARGET RoughPy_PyModule)
    set_target_properties(RoughPy_PyModule PROPERTIES
      LIBRARY_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/py/roughpy")
  endif()
  if(TARGET RoughPyComputeModule)
    set_target_properties(RoughPyComputeModule PROPERTIES
      LIBRARY_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/py/roughpy/compute")
    target_include_directories(RoughPyComputeModule PRIVATE "${VH_HARNESS_DIR}/shim")
  endif()
  include("${VH_HARNESS_DIR}/harness.cmake")
endfunction()
cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL _vh_hook)

# Read at the end of project(aqsis_all) (CMAKE_PROJECT_aqsis_all_INCLUDE).
# The partio submodule is empty in the sandbox: use the stand-in under
# /verif/stubs/partio so that the whole renderer links and runs.
get_filename_component(VERIF_ROOT "${CMAKE_CURRENT_LIST_DIR}/.." ABSOLUTE)
set(verif_skip examples doc distribution tools/eqsl tools/piqsl tools/ptview tools/neqsus shaders)
macro(add_subdirectory)
	set(partio_SOURCE_DIR "${VERIF_ROOT}/stubs/partio")
	file(RELATIVE_PATH _v_dir "${CMAKE_SOURCE_DIR}" "${CMAKE_CURRENT_SOURCE_DIR}/${ARGV0}")
	list(FIND verif_skip "${_v_dir}" _v_skip)
	if(_v_skip EQUAL -1)
		_add_subdirectory(${ARGN})
	endif()
endmacro()

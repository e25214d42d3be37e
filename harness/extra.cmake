# libraries only some drivers need
set(VSS_SRC)
foreach(i 1 2 3 4 5 6 7)
  static_features(vss_${i} VssStatic${i} static_specs.h vss::S${i} v_core)
  list(APPEND VSS_SRC ${GEN}/vss_${i}.cc)
endforeach()
add_library(v_vss STATIC EXCLUDE_FROM_ALL ${VSS_SRC})
target_link_libraries(v_vss v_core)
# the model development tools, with file operations that can be made to fail
collect(TOOL_SRC core/tool)
add_executable(v_tool EXCLUDE_FROM_ALL ${TOOL_SRC} faultshim.cc)
target_link_libraries(v_tool v_train v_cg v_core v_util v_pathie dl)
add_executable(v_jtrain EXCLUDE_FROM_ALL ${S}/jumandic/main/jumanpp_train.cc faultshim.cc)
target_link_libraries(v_jtrain v_train v_jumandic v_core v_util v_pathie dl)
add_executable(v_boot EXCLUDE_FROM_ALL ${S}/jumandic/main/bootstrap.cc faultshim.cc)
target_link_libraries(v_boot v_jspec v_core v_util v_pathie dl)

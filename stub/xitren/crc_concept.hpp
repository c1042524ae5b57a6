// Empty: packet.hpp includes this header of another project, but uses nothing of it.


#ifndef DUNE_ISTL_CONFIG_PRIVATE_HH
#define DUNE_ISTL_CONFIG_PRIVATE_HH


/* Name of package */
#define PACKAGE "dune-istl"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "dune-devel@lists.dune-project.org"

/* Define to the full name of this package. */
#define PACKAGE_NAME "dune-istl"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "dune-istl 2.11-git"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "dune-istl"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "2.11-git"



#include <dune-istl-config.hh>

#endif // DUNE_ISTL_CONFIG_PRIVATE_HH

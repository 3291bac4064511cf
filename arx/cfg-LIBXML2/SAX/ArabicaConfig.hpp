
/* define if the Boost library is available */
#define ARABICA_HAVE_BOOST

/* defined if we don't need extra codecvt template specialisations */
/* #undef NO_CODECVT_SPECIALISATIONS */

/* no mbstate_t */
/* #undef NO_MBSTATE_T */

/* no std::mbstate_t */
/* #undef NO_STD_MBSTATE_T */

/* disables wchar_t */
/* #undef NO_WCHAR_T */

/* define to build against Expat */
#define ARABICA_USE_LIBXML2

/* define to build against LibXML2 */
/* #undef ARABICA_USE_LIBXML2 */

/* define to build against Xerces */
/* #undef ARABICA_USE_XERCES */

/* define to build using Garden */
/* #undef USE_GARDEN */

/* defined for Windows builds using Winsock rather than BSD-style sockets */
/* #undef USE_WINSOCK */

/* Version number of package */
/* #undef VERSION */

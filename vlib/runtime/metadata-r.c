/* metadata */

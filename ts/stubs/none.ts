// packages whose use is not explored
const none = (): any => ({})
export default none
export const defaultLogger = none
